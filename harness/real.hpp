// Reference affine arithmetic on the library's curves, and conversions from and to its element classes.
#ifndef VERIF_REAL_HPP
#define VERIF_REAL_HPP
#include <map>
#include "tower.hpp"
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/coordinates.hpp>
namespace rc {
using zn::Z;
using tw::V;
namespace cv = nil::crypto3::algebra::curves;
namespace co = nil::crypto3::algebra::curves::coordinates;
struct Pt {
    bool inf;
    V x, y;
    friend bool operator==(const Pt &a, const Pt &b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }
    friend bool operator!=(const Pt &a, const Pt &b) { return !(a == b); }
    friend std::ostream &operator<<(std::ostream &o, const Pt &p) { if (p.inf) return o << "O"; return o << "(" << tw::str(p.x) << ", " << tw::str(p.y) << ")"; }
};
enum Kind { SW, TE, MONT };
struct Curve {
    tw::Tower T;
    Kind kind;
    V a, b;        // SW: a, b; TE: a, d; MONT: A, B
    Z r, h;        // order of the subgroup, cofactor
    V gx, gy;      // the standard generator where one is published here, else empty
    unsigned two;  // 2^two is the even part of h, where points of even order have no representation; else 0

    V inv(const V &v) const {
        if (v.size() == 1) return V {zn::inv(v[0], T.p)};
        V q = T.one(), f = v;
        for (std::size_t i = 1; i < T.size(); ++i) { f = T.frob(f); q = T.mul(q, f); }
        V n = T.mul(q, v);
        return T.scale(q, zn::inv(n[0], T.p));
    }
    V c(long k) const { V v = T.zero(); v[0] = zn::mod(Z(k), T.p); return v; }
    V sq(const V &v) const { return T.mul(v, v); }
    V cube(const V &v) const { return T.mul(v, T.mul(v, v)); }
    Pt zero() const { if (kind == TE) return Pt {false, T.zero(), T.one()}; return Pt {true, T.zero(), T.zero()}; }
    bool on(const Pt &p) const {
        if (p.inf) return kind != TE;
        V x2 = sq(p.x), y2 = sq(p.y);
        if (kind == SW) return y2 == T.add(T.add(T.mul(x2, p.x), T.mul(a, p.x)), b);
        if (kind == MONT) return T.mul(b, y2) == T.add(T.add(T.mul(x2, p.x), T.mul(a, x2)), p.x);
        return T.add(T.mul(a, x2), y2) == T.add(T.one(), T.mul(b, T.mul(x2, y2)));
    }
    Pt neg(Pt p) const {
        if (p.inf) return p;
        if (kind == TE) p.x = T.neg(p.x); else p.y = T.neg(p.y);
        return p;
    }
    Pt add(const Pt &p, const Pt &q) const {
        if (kind == TE) {
            V m = T.mul(b, T.mul(T.mul(p.x, q.x), T.mul(p.y, q.y)));
            V d1 = T.add(T.one(), m), d2 = T.sub(T.one(), m);
            DISCARD_UNLESS(!tw::is0(d1) && !tw::is0(d2));
            return Pt {false, T.mul(T.add(T.mul(p.x, q.y), T.mul(p.y, q.x)), inv(d1)), T.mul(T.sub(T.mul(p.y, q.y), T.mul(a, T.mul(p.x, q.x))), inv(d2))};
        }
        if (p.inf) return q;
        if (q.inf) return p;
        V l;
        if (p.x == q.x) {
            if (p.y != q.y || tw::is0(p.y)) return zero();
            V x2 = sq(p.x);
            if (kind == SW) l = T.mul(T.add(T.scale(x2, 3), a), inv(T.scale(p.y, 2)));
            else l = T.mul(T.add(T.add(T.scale(x2, 3), T.scale(T.mul(a, p.x), 2)), T.one()), inv(T.scale(T.mul(b, p.y), 2)));
        } else l = T.mul(T.sub(q.y, p.y), inv(T.sub(q.x, p.x)));
        V x = sq(l);
        if (kind == MONT) x = T.sub(T.mul(b, x), a);
        x = T.sub(T.sub(x, p.x), q.x);
        return Pt {false, x, T.sub(T.mul(l, T.sub(p.x, x)), p.y)};
    }
    Pt mul(Z k, Pt p) const {
        if (k < 0) { k = -k; p = neg(p); }
        Pt s = zero();
        for (std::size_t i = zn::bits(k); i-- > 0;) { s = add(s, s); if (mpz_tstbit(k.get_mpz_t(), i)) s = add(s, p); }
        return s;
    }
    bool square(const V &v) const { return tw::is0(v) || T.pow(v, T.order() / 2) == T.one(); }
    V sqrt(const V &v) const {    // Tonelli-Shanks
        if (tw::is0(v)) return v;
        std::size_t s = mpz_scan1(T.order().get_mpz_t(), 0);
        Z t = T.order() >> s;
        static std::map<std::string, V> cache;
        V &z = cache[T.p.get_str(16) + "/" + std::to_string(T.size())];
        if (z.empty()) {
            V n = T.zero();
            for (long i = 1;; ++i) { n[0] = i / 3; n[T.size() - 1] += i % 3; n = T.red(n); if (!square(n)) break; n[T.size() - 1] = 0; n[0] = i + 1; }
            z = T.pow(n, t);
        }
        V c = z, x = T.pow(v, (t + 1) / 2), b = T.pow(v, t);
        std::size_t m = s;
        while (b != T.one()) {
            std::size_t i = 0;
            V w = b;
            while (w != T.one()) { w = sq(w); ++i; }
            CHECK(i < m, "reference square root of a non-square");
            V g = c;
            for (std::size_t j = 0; j + i + 1 < m; ++j) g = sq(g);
            x = T.mul(x, g);
            c = sq(g);
            b = T.mul(b, c);
            m = i;
        }
        return x;
    }
    // the point over the first suitable x at or after the given one (y for Edwards curves)
    Pt from(V x, bool other) const {
        for (;; x[0] = zn::mod(x[0] + 1, T.p)) {
            V y2;
            if (kind == SW) y2 = T.add(T.add(cube(x), T.mul(a, x)), b);
            else if (kind == MONT) y2 = T.mul(T.add(T.add(cube(x), T.mul(a, sq(x))), x), inv(b));
            else { V d = T.sub(T.one(), T.mul(b, sq(x))); if (tw::is0(d)) continue; y2 = T.mul(T.sub(T.one(), T.mul(a, sq(x))), inv(d)); }
            if (!square(y2)) continue;
            V y = sqrt(y2);
            return Pt {false, x, other ? T.neg(y) : y};
        }
    }
    Pt raw(unsigned i) const { V x = T.zero(); x[0] = i * 0x1234567u + 5; if (x.size() > 1) x[1] = i * 77u + 1; return from(T.red(x), i & 1); }
    Pt generator() const {
        if (!gx.empty()) return Pt {false, gx, gy};
        return mul(h, raw(0));
    }
    // a stock of points: generator, arbitrary, of the subgroup, of small order
    mutable std::vector<Pt> stock_;
    const std::vector<Pt> &stock() const {
        if (stock_.empty()) {
            stock_.push_back(generator());
            for (unsigned i = 1; i < 4; ++i) stock_.push_back(visible(raw(i)));
            for (unsigned i = 4; i < 6; ++i) stock_.push_back(mul(h, raw(i)));
            if (h > 1 && !two)
                for (unsigned i = 6; i < 9; ++i) {
                    Pt q = mul(r, raw(i));
                    stock_.push_back(q);
                    for (long f : {2, 3, 4, 5, 7, 8}) if (h % f == 0) stock_.push_back(mul(Z(h / f), q));
                }
        }
        return stock_;
    }
    Pt visible(Pt p) const { for (unsigned i = 0; i < two; ++i) p = add(p, p); return p; }
    Pt draw(vf::Src &S) const {
        switch (S.u64(9)) {
            case 0: return zero();
            case 1: return stock()[0];
            case 2: return neg(stock()[0]);
            case 3: { V x = T.zero(); for (auto &k : x) k = zn::draw_mod(S, T.p); return visible(from(x, S.flip())); }
            case 4: { Pt p = S.index(2) ? stock()[S.index(stock().size())] : stock()[0]; return mul(zn::u(2 + S.u64(30)), p); }
            case 5: { const Pt &p = stock()[S.index(stock().size())], &q = stock()[S.index(stock().size())]; return S.flip() ? add(p, q) : add(p, neg(q)); }
            default: { const Pt &p = stock()[S.index(stock().size())]; return S.flip() ? p : neg(p); }
        }
    }
    Pt draw_sub(vf::Src &S) const {    // of the prime-order subgroup
        switch (S.u64(5)) {
            case 0: return S.one_in(3) ? zero() : stock()[0];
            case 1: return neg(stock()[4 + S.index(2)]);
            case 2: return add(stock()[4 + S.index(2)], mul(zn::u(S.u64(50)), stock()[0]));
            default: return mul(zn::draw_mod(S, r), stock()[0]);
        }
    }
    // a second point: independent, equal, opposite, a multiple, identity
    Pt draw_related(vf::Src &S, const Pt &p) const {
        switch (S.u64(6)) {
            case 0: return p;
            case 1: return neg(p);
            case 2: return mul(zn::u(S.u64(4)), p);
            default: return draw(S);
        }
    }
};
inline V hexv(std::initializer_list<const char *> l, const tw::Tower &T) {
    V v;
    for (const char *s : l) v.push_back(Z(s, 16));
    while (v.size() < T.size()) v.push_back(Z(0));
    return T.red(v);
}

// the coordinate systems
struct AffineTag { }; struct JacTag { }; struct ProjTag { }; struct TeAffTag { }; struct InvTag { }; struct ExtTag { }; struct MontTag { };
template<class Form, class C> struct TagOf;
template<> struct TagOf<cv::forms::short_weierstrass, co::affine> { typedef AffineTag type; };
template<> struct TagOf<cv::forms::short_weierstrass, co::jacobian> { typedef JacTag type; };
template<> struct TagOf<cv::forms::short_weierstrass, co::jacobian_with_a4_0> { typedef JacTag type; };
template<> struct TagOf<cv::forms::short_weierstrass, co::jacobian_with_a4_minus_3> { typedef JacTag type; };
template<> struct TagOf<cv::forms::short_weierstrass, co::projective> { typedef ProjTag type; };
template<> struct TagOf<cv::forms::short_weierstrass, co::projective_with_a4_minus_3> { typedef ProjTag type; };
template<> struct TagOf<cv::forms::twisted_edwards, co::affine> { typedef TeAffTag type; };
template<> struct TagOf<cv::forms::twisted_edwards, co::inverted> { typedef InvTag type; };
template<> struct TagOf<cv::forms::twisted_edwards, co::extended_with_a_minus_1> { typedef ExtTag type; };
template<> struct TagOf<cv::forms::montgomery, co::affine> { typedef MontTag type; };

// G: { C(), name, group<Coord>, Form }
template<class G, class Coord> struct Ad {
    typedef typename TagOf<typename G::Form, Coord>::type Tag;
    typedef typename G::template group<Coord>::value_type E;
    typedef typename G::FE FE;
    static const Curve &C() { return G::C(); }
    static const tw::Tower &T() { return C().T; }
    static constexpr bool projective = !std::is_same<Tag, AffineTag>::value && !std::is_same<Tag, TeAffTag>::value && !std::is_same<Tag, MontTag>::value;
    static FE fe(const V &v) { return tw::elt<FE>(v); }
    static V draw_nz(vf::Src &S) { V z = T().zero(); for (auto &c : z) c = zn::draw_mod(S, T().p); if (tw::is0(z)) z[0] = 1; return z; }
    static V scale(vf::Src &S, bool norm) { if (norm || S.one_in(3)) return T().one(); return draw_nz(S); }
    static E rep(vf::Src &S, const Pt &p, bool norm) {
        const tw::Tower &t = T();
        if constexpr (std::is_same<Tag, AffineTag>::value || std::is_same<Tag, MontTag>::value) return p.inf ? E() : E(fe(p.x), fe(p.y));
        else if constexpr (std::is_same<Tag, TeAffTag>::value) return p == C().zero() && S.flip() ? E() : E(fe(p.x), fe(p.y));
        else if constexpr (std::is_same<Tag, JacTag>::value) {
            if (p.inf) return S.flip() ? E() : E(fe(draw_nz(S)), fe(draw_nz(S)), FE::zero());
            V z = scale(S, norm), z2 = t.mul(z, z);
            return E(fe(t.mul(p.x, z2)), fe(t.mul(p.y, t.mul(z2, z))), fe(z));
        } else if constexpr (std::is_same<Tag, ProjTag>::value) {
            if (p.inf) return S.flip() ? E() : E(FE::zero(), fe(draw_nz(S)), FE::zero());
            V z = scale(S, norm);
            return E(fe(t.mul(p.x, z)), fe(t.mul(p.y, z)), fe(z));
        } else if constexpr (std::is_same<Tag, InvTag>::value) {
            if (p == C().zero()) return S.flip() ? E() : E(fe(draw_nz(S)), FE::zero(), FE::zero());
            V z = scale(S, norm);
            return E(fe(t.mul(z, C().inv(p.x))), fe(t.mul(z, C().inv(p.y))), fe(z));
        } else {
            V z = scale(S, norm);
            return E(fe(t.mul(p.x, z)), fe(t.mul(p.y, z)), fe(t.mul(t.mul(p.x, p.y), z)), fe(z));
        }
    }
    static Pt back(const E &e) {
        const tw::Tower &t = T();
        if constexpr (std::is_same<Tag, MontTag>::value) return e.is_zero() ? C().zero() : Pt {false, tw::flat(e.X), tw::flat(e.Y)};
        else if constexpr (!projective) {
            E z;
            V x = tw::flat(e.X), y = tw::flat(e.Y);
            if (x == tw::flat(z.X) && y == tw::flat(z.Y)) return C().zero();
            return Pt {false, x, y};
        } else {
            V x = tw::flat(e.X), y = tw::flat(e.Y), z = tw::flat(e.Z);
            if constexpr (std::is_same<Tag, InvTag>::value) {
                if (tw::is0(y) && tw::is0(z)) return C().zero();
                CHECK(!tw::is0(x) && !tw::is0(y) && !tw::is0(z), G::name << ": element (" << tw::str(x) << ", " << tw::str(y) << ", " << tw::str(z) << ") denotes no point");
                return Pt {false, t.mul(z, C().inv(x)), t.mul(z, C().inv(y))};
            } else if constexpr (std::is_same<Tag, ExtTag>::value) {
                V T4 = tw::flat(e.T);
                CHECK(!tw::is0(z) && t.mul(x, y) == t.mul(T4, z), G::name << ": element (" << tw::str(x) << ", " << tw::str(y) << ", " << tw::str(T4) << ", " << tw::str(z) << ") denotes no point");
                V i = C().inv(z);
                return Pt {false, t.mul(x, i), t.mul(y, i)};
            } else {
                if (tw::is0(z)) return C().zero();
                V i = C().inv(z);
                if constexpr (std::is_same<Tag, JacTag>::value) { V i2 = t.mul(i, i); return Pt {false, t.mul(x, i2), t.mul(y, t.mul(i2, i))}; }
                else return Pt {false, t.mul(x, i), t.mul(y, i)};
            }
        }
    }
};
}    // namespace rc
#endif
