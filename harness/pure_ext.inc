// C29: calls on elements of extensions and of their prime fields.
#include <boost/container_hash/hash.hpp>
#include <boost/random.hpp>
#include <nil/crypto3/algebra/random_element.hpp>
#include <nil/crypto3/algebra/marshalling.hpp>
#include "pure.hpp"
namespace px {
namespace alg = nil::crypto3::algebra;
using zn::Z;
#define HAS(N, X) template<class E, class = void> struct N : std::false_type { }; template<class E> struct N<E, std::void_t<decltype(X)>> : std::true_type { };
#define DV(T) std::declval<T>()
HAS(has_half, E::group_order_minus_one_half)
HAS(has_cyc, DV(E).cyclotomic_squared())
HAS(has_frob, DV(E).Frobenius_map(1u))
HAS(has_023, DV(E &).mul_by_023(DV(E)))
HAS(has_2345, DV(E &).mul_by_2345(DV(E)))
HAS(has_nr, DV(E &).mul_by_non_residue(DV(typename E::underlying_type)))
HAS(has_045, DV(E &).mul_by_045(DV(typename E::underlying_type::underlying_type), DV(typename E::underlying_type::underlying_type), DV(typename E::underlying_type::underlying_type)))
template<class X> struct St {
    typedef typename X::F F;
    typedef typename F::value_type E;
    static std::vector<E> &el() { static std::vector<E> v; return v; }
    static std::vector<E> &cyc() { static std::vector<E> v; return v; }
    static void build() {
        const tw::Tower &t = X::T();
        vf::Src S;
        std::uint64_t rec[4096];
        std::size_t n = 0;
        S.rec = rec; S.rec_n = &n; S.s0 = 5; S.s1 = 6;
        auto rnd = [&] { tw::V v = t.zero(); for (auto &c : v) c = zn::draw_mod(S, t.p); return v; };
        tw::V a = rnd(), b = rnd(), h = a, m = t.neg(a), z = a, s = t.one();
        z[0] = zn::mod(Z(a[0] + 1), t.p);
        for (std::size_t i = 1; i < h.size(); ++i) h[i] = 0;
        s.back() = zn::mod(Z(t.p - 1), t.p);
        for (auto &v : {a, m, b, t.one(), t.zero(), t.mul(a, a), h, z, s, t.mul(b, b)}) el().push_back(tw::elt<E>(v));
        if constexpr (has_cyc<E>::value)
            for (auto &v : {a, b, z, t.mul(a, b), t.one()}) {    // into the cyclotomic subgroup
                std::size_t k = t.size();
                tw::V f = t.mul(t.frobk(v, k / 2), t.inv(v));
                if (k == 6) f = t.mul(t.frobk(f, 1), f);
                if (k == 12) f = t.mul(t.frobk(f, 2), f);
                cyc().push_back(tw::elt<E>(f));
            }
    }
};
#define ARGS_ typedef St<X> T; typedef typename T::E E; typedef typename X::F F; (void) b; (void) k; E x = T::el()[a], y = T::el()[b]; const E x0 = x, y0 = y;
#define OP(N, ...) template<class X> std::string N(unsigned a, unsigned b, unsigned k) { ARGS_ std::string r_; auto out = [&](const auto &v) { r_ += tw::str(tw::flat(v)); }; (void) out; __VA_ARGS__ pure::same(x, x0, "first"); pure::same(y, y0, "second"); return r_; }
OP(sum, out(x + y); out(x - y); out(-x); out(x.doubled());)
OP(prod, out(x * y);)
OP(in_place, E v = x; v += y; out(v); v -= x; out(v); v *= y; out(v);)
OP(square, out(x.squared());)
OP(inverse, if (!x.is_zero()) out(x.inversed());)
OP(power, out(x.pow(typename F::integral_type(k * 77u + 1)));)
OP(root, if constexpr (X::depth <= 1) { if constexpr (X::depth > 0 || has_half<F>::value) r_ = std::to_string(x.is_square()); if (a == 5 || a == 9 || a == 3) out(x.sqrt()); })
OP(frobenius, if constexpr (has_frob<E>::value) out(x.Frobenius_map(k));)
OP(asks, r_ = std::to_string(x == y) + std::to_string(x != y) + std::to_string(x.is_zero()) + std::to_string(x.is_one()); out(E::zero()); out(E::one()); r_ += vf::str(x);)
OP(cyclotomic, if constexpr (has_cyc<E>::value) { E c = T::cyc()[a % 5]; const E c0 = c; out(c.cyclotomic_squared()); out(c.unitary_inversed()); out(c.cyclotomic_exp(typename X::Base::extended_integral_type(1000003u * k + b))); pure::same(c, c0, "first"); })
OP(special, if constexpr (has_nr<E>::value) out(x.mul_by_non_residue(y.data[0]));
    if constexpr (has_023<E>::value) { E w = y; w.data[0].data[1] = E::underlying_type::underlying_type::zero(); out(x.mul_by_023(w)); }
    if constexpr (has_2345<E>::value) { E w = y; w.data[0].data[0] = w.data[0].data[1] = E::underlying_type::underlying_type::zero(); out(x.mul_by_2345(w)); }
    if constexpr (has_045<E>::value) { auto &p = y.data[0]; out(x.mul_by_045(p.data[0], p.data[1], p.data[2])); out(x.mul_by_024(p.data[0], p.data[1], p.data[2])); })
OP(random, boost::random::mt19937 g(a * 10 + b); out(alg::random_element<F>(g)); r_ += std::to_string(g()); if (k == 3) alg::random_element<F>();)
OP(octets, typedef nil::marshalling::bincode::field<F> B; std::vector<std::uint8_t> v(B::get_element_size(), 0x5A); r_ += std::to_string(B::field_element_to_bytes(x, v.begin(), v.end())) + ":"; for (auto c : v) r_ += std::to_string(int(c)) + ","; auto z = B::field_element_from_bytes(v.begin(), v.end()); r_ += std::to_string(z.first); if (z.first) out(z.second);)
template<class X> struct Reg {
    Reg() {
        pure::prepare().push_back(St<X>::build);
        auto add = [&](const char *o, pure::Fn f) { pure::ops().push_back(pure::Op {std::string(X::name) + "." + o, f}); };
#define A_(N) add(#N, N<X>);
        A_(sum) A_(prod) A_(in_place) A_(square) A_(inverse) A_(power) A_(root) A_(frobenius) A_(asks) A_(cyclotomic) A_(special) A_(random) A_(octets)
    }
};
#undef OP
#undef HAS
}    // namespace px
#define R29_(X) static px::Reg<X> r29_##X;
#ifdef EXT_LIST
EXT_LIST(R29_)
#endif
