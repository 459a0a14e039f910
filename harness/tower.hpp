// Reference tower arithmetic: an element is the flat list of its prime-field coefficients, multiplied by
// schoolbook polynomial multiplication and reduction by the published defining polynomial of each level.
#ifndef VERIF_TOWER_HPP
#define VERIF_TOWER_HPP
#include "zn.hpp"
namespace tw {
using zn::Z;
typedef std::vector<Z> V;
struct Level { unsigned deg; V nr; };    // x^deg = nr, nr an element of the level below (flat)
struct Tower {
    Z p;
    std::vector<Level> lv;    // from the bottom up
    std::size_t size(std::size_t k) const { std::size_t s = 1; for (std::size_t i = 0; i < k; ++i) s *= lv[i].deg; return s; }
    std::size_t size() const { return size(lv.size()); }
    V zero() const { return V(size(), Z(0)); }
    V one() const { V v = zero(); v[0] = 1; return v; }
    V red(V a) const { for (auto &c : a) c = zn::mod(c, p); return a; }
    V add(const V &a, const V &b) const { V r(a); for (std::size_t i = 0; i < r.size(); ++i) r[i] += b[i]; return red(r); }
    V sub(const V &a, const V &b) const { V r(a); for (std::size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return red(r); }
    V neg(const V &a) const { V r(a); for (auto &c : r) c = -c; return red(r); }
    V scale(const V &a, const Z &s) const { V r(a); for (auto &c : r) c *= s; return red(r); }
    void mul_at(std::size_t k, const Z *a, const Z *b, Z *r) const {    // r += a*b at level k, unreduced at the bottom
        if (k == 0) { mpz_addmul(r[0].get_mpz_t(), a[0].get_mpz_t(), b[0].get_mpz_t()); return; }
        std::size_t d = lv[k - 1].deg, n = size(k - 1);
        V t((2 * d - 1) * n, Z(0));
        for (std::size_t i = 0; i < d; ++i)
            for (std::size_t j = 0; j < d; ++j) mul_at(k - 1, a + i * n, b + j * n, &t[(i + j) * n]);
        for (auto &c : t) c = zn::mod(c, p);
        for (std::size_t i = 0; i < d; ++i)
            for (std::size_t q = 0; q < n; ++q) r[i * n + q] += t[i * n + q];
        for (std::size_t i = d; i < 2 * d - 1; ++i) mul_at(k - 1, &t[i * n], lv[k - 1].nr.data(), r + (i - d) * n);
    }
    V mul(const V &a, const V &b) const { V r = zero(); mul_at(lv.size(), a.data(), b.data(), r.data()); return red(r); }
    V pow(V b, Z e) const {
        V r = one();
        for (std::size_t i = zn::bits(e); i-- > 0;) { r = mul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, b); }
        return r;
    }
    // element of the level with k tower steps, placed as the constant coefficient
    V lift(const V &a) const { V r = zero(); for (std::size_t i = 0; i < a.size(); ++i) r[i] = a[i]; return r; }
    Z order() const { Z q = 1; for (std::size_t i = 0; i < size(); ++i) q *= p; return q - 1; }
    V inv(const V &a) const { return pow(a, order() - 1); }
    // p-th power through linearity over the basis
    mutable std::vector<V> frob_basis;
    V frob(const V &a) const {
        if (frob_basis.empty())
            for (std::size_t i = 0; i < size(); ++i) { V e = zero(); e[i] = 1; frob_basis.push_back(pow(e, p)); }
        V r = zero();
        for (std::size_t i = 0; i < size(); ++i) r = add(r, scale(frob_basis[i], a[i]));
        return r;
    }
    V frobk(V a, unsigned k) const { k %= size(); while (k--) a = frob(a); return a; }
    V draw(vf::Src &S) const {
        V r = zero();
        switch (S.u64(6)) {
            case 0: return r[0] = zn::mod(zn::u(S.u64(3)), p), r;
            case 1: {    // sparse
                unsigned n = 1 + S.u64(2);
                while (n--) r[S.index(size())] = zn::draw_mod(S, p);
                return r;
            }
            case 2: {    // a subfield: the first coefficients of one level
                std::size_t n = size(S.index(lv.size() + 1));
                for (std::size_t i = 0; i < n; ++i) r[i] = zn::draw_mod(S, p);
                return r;
            }
            case 3: {    // coefficients in {0, 1, -1, 2}
                for (auto &c : r) c = zn::mod(Z((long) S.range(-1, 2)), p);
                return r;
            }
            default:
                for (auto &c : r) c = zn::draw_mod(S, p);
                return r;
        }
    }
};
inline std::string str(const V &a) { std::string s = "["; for (std::size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + zn::hex(a[i]); return s + "]"; }
inline bool is0(const V &a) { for (auto &c : a) if (c != 0) return false; return true; }

// conversions from and to the library's nested element types
template<class E, class = void> struct Flat {
    enum { n = 1 };
    static void put(const E &e, V &v) { v.push_back(zn::from_num(typename E::integral_type(e.data))); }
    static E get(const Z *v) { return E(zn::to_num<typename E::integral_type>(v[0])); }
};
template<class E> struct Flat<E, std::void_t<typename E::underlying_type>> {
    typedef typename E::underlying_type U;
    enum { d = std::tuple_size<typename E::data_type>::value, n = d * Flat<U>::n };
    static void put(const E &e, V &v) { for (auto &c : e.data) Flat<U>::put(c, v); }
    static E get(const Z *v) {
        typename E::data_type a;
        for (std::size_t i = 0; i < d; ++i) a[i] = Flat<U>::get(v + i * Flat<U>::n);
        return E(a);
    }
};
template<class E> V flat(const E &e) { V v; Flat<E>::put(e, v); return v; }
template<class E> E elt(const V &v) { return Flat<E>::get(v.data()); }
}    // namespace tw
#endif
