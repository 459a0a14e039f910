// C23: mapping field elements to BLS12-381.
#include <vector>
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
#include "h2c_iso.inc"
using rc::Curve;
using rc::Pt;
using rc::V;
using rc::Z;
namespace h2 {
namespace det = nil::crypto3::algebra::curves::detail;
typedef nil::crypto3::algebra::curves::bls12_381 B;
struct Poly { std::vector<V> c; bool monic; };
struct Suite { Curve e, iso; V z; Poly xn, xd, yn, yd; };
template<std::size_t N> std::vector<V> coefs(const char *const (&s)[N], std::size_t k) {
    std::vector<V> r;
    for (std::size_t i = 0; i < N; i += k) { V v; for (std::size_t j = 0; j < k; ++j) v.push_back(Z(s[i + j], 16)); r.push_back(v); }
    return r;
}
static V eval(const Curve &c, const Poly &p, const V &x) {
    V r = p.monic ? c.T.one() : c.T.zero();
    for (std::size_t i = p.c.size(); i-- > 0;) r = c.T.add(c.T.mul(r, x), p.c[i]);
    return r;
}
struct G1 {
    typedef G_bls381_g1 G;
    typedef B::g1_type<> Grp;
    static const Suite &S() {
        static Suite s = make();
        return s;
    }
    static Suite make() {
        Suite s;
        s.e = s.iso = G::C();
        s.iso.a = V {Z("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d", 16)};
        s.iso.b = V {Z("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0", 16)};
        s.iso.gx = s.iso.gy = V();
        s.z = V {Z(11)};
        s.xn = {coefs(iso1_x_num, 1), false}; s.xd = {coefs(iso1_x_den, 1), true}; s.yn = {coefs(iso1_y_num, 1), false}; s.yd = {coefs(iso1_y_den, 1), true};
        return s;
    }
    static bool sgn0(const V &v) { return mpz_odd_p(v[0].get_mpz_t()); }
    static constexpr unsigned degree = 11;
};
struct G2 {
    typedef G_bls381_g2 G;
    typedef B::g2_type<> Grp;
    static const Suite &S() {
        static Suite s = make();
        return s;
    }
    static Suite make() {
        Suite s;
        s.e = s.iso = G::C();
        const Z &p = s.e.T.p;
        s.iso.a = V {Z(0), Z(240)};
        s.iso.b = V {Z(1012), Z(1012)};
        s.iso.gx = s.iso.gy = V();
        s.z = V {p - 2, p - 1};
        s.xn = {coefs(iso2_x_num, 2), false}; s.xd = {coefs(iso2_x_den, 2), true}; s.yn = {coefs(iso2_y_num, 2), false}; s.yd = {coefs(iso2_y_den, 2), true};
        return s;
    }
    static bool sgn0(const V &v) { return v[0] == 0 ? mpz_odd_p(v[1].get_mpz_t()) : mpz_odd_p(v[0].get_mpz_t()); }
    static constexpr unsigned degree = 3;
};
// the isogeny
template<class X> Pt iso(const Pt &p) {
    const Suite &s = X::S();
    if (p.inf) return p;
    V xd = eval(s.e, s.xd, p.x), yd = eval(s.e, s.yd, p.x);
    if (tw::is0(xd) || tw::is0(yd)) return s.e.zero();
    return Pt {false, s.e.T.mul(eval(s.e, s.xn, p.x), s.e.inv(xd)), s.e.T.mul(p.y, s.e.T.mul(eval(s.e, s.yn, p.x), s.e.inv(yd)))};
}
// the simplified SWU map (RFC 9380, 6.6.2)
template<class X> Pt swu(const V &u) {
    const Suite &s = X::S();
    const tw::Tower &T = s.e.T;
    auto g = [&](const V &x) { return T.add(T.add(s.e.cube(x), T.mul(s.iso.a, x)), s.iso.b); };
    V zu2 = T.mul(s.z, T.mul(u, u)), t = T.add(T.mul(zu2, zu2), zu2), x1;
    if (tw::is0(t)) x1 = T.mul(s.iso.b, s.e.inv(T.mul(s.z, s.iso.a)));
    else x1 = T.mul(T.mul(T.neg(s.iso.b), s.e.inv(s.iso.a)), T.add(T.one(), s.e.inv(t)));
    V x = x1;
    if (!s.e.square(g(x1))) x = T.mul(zu2, x1);
    V y = s.e.sqrt(g(x));
    if (X::sgn0(u) != X::sgn0(y)) y = T.neg(y);
    return Pt {false, x, y};
}
template<class X> typename X::Grp::value_type lib(const Pt &p) {
    typedef rc::Ad<typename X::G, typename X::G::Default> A;
    return typename X::Grp::value_type(A::fe(p.x), A::fe(p.y), X::G::FE::one());
}
template<class X> V input(vf::Src &S) {
    const Suite &s = X::S();
    const tw::Tower &T = s.e.T;
    switch (S.u64(9)) {
        case 0: return T.zero();
        case 1: {    // u^2 = -1/Z where there is such an element
            V v = s.e.inv(T.neg(s.z));
            if (!s.e.square(v)) return T.one();
            v = s.e.sqrt(v);
            return S.flip() ? v : T.neg(v);
        }
        case 2: {    // inputs whose first coefficient is zero, or differ in the last bit
            V v = T.zero();
            v.back() = zn::draw_mod(S, T.p);
            return v;
        }
        default: return T.draw(S);
    }
}
template<class X> void map(vf::Src &S) {
    typedef rc::Ad<typename X::G, typename X::G::Default> A;
    const Suite &s = X::S();
    V u = input<X>(S);
    S.note(X::G::name, " u=", tw::str(u));
    S.nontrivial(!tw::is0(u));
    Pt q = swu<X>(u);
    CHECK(s.iso.on(q), "reference: not on the isogenous curve");
    Pt want = iso<X>(q);
    CHECK(s.e.on(want), "reference: not on the curve");
    auto e = A::fe(u);
    auto r = det::map_to_curve<typename X::Grp>::process(e);
    Pt got = A::back(r);
    CHECK(s.e.on(got), "u=" << tw::str(u) << " is mapped to " << got << ", which is not on " << X::G::name);
    CHECK(got == want, "u=" << tw::str(u) << " is mapped to " << got << " instead of " << want << " on " << X::G::name);
    CHECK(tw::flat(e) == u, "mapping changed its input " << tw::str(u));
    // the first half of the map alone
    auto m = det::m2c_simple_swu<typename X::Grp>::process(A::fe(u));
    CHECK(tw::flat(m.X) == q.x && tw::flat(m.Y) == q.y && tw::flat(m.Z) == s.e.T.one(), "the simplified SWU map takes u=" << tw::str(u) << " to " << tw::str(tw::flat(m.X)) << ", " << tw::str(tw::flat(m.Y)) << " instead of " << q);
    // opposite inputs go to opposite points
    if (!tw::is0(u)) {
        Pt n = A::back(det::map_to_curve<typename X::Grp>::process(A::fe(s.e.T.neg(u))));
        CHECK(n == s.e.neg(got), "u=" << tw::str(u) << " and its opposite are mapped to " << got << " and " << n);
    }
}
// a point of the isogenous curve: any, or of the kernel where it has points
template<class X> Pt point(vf::Src &S) {
    const Suite &s = X::S();
    Pt p = s.iso.from(s.e.T.draw(S), S.flip());
    static Pt kernel = [&]() {
        Z n = s.e.r * s.e.h;
        unsigned d = X::degree;
        Pt k = s.iso.zero();
        while (n % d == 0) n /= d;
        Pt q = s.iso.mul(n, p);
        while (!q.inf) { k = q; q = s.iso.mul(Z(d), q); }
        return k;
    }();
    if (S.one_in(4)) { Pt k = s.iso.mul(Z(1 + S.u64(X::degree - 2)), kernel); return S.flip() ? k : s.iso.add(k, p); }
    return p;
}
template<class X> void isogeny(vf::Src &S) {
    typedef rc::Ad<typename X::G, typename X::G::Default> A;
    const Suite &s = X::S();
    Pt p = point<X>(S), q = S.one_in(5) ? p : S.one_in(6) ? s.iso.neg(p) : point<X>(S), r = s.iso.add(p, q);
    DISCARD_UNLESS(!p.inf && !q.inf);
    S.note(X::G::name, " ", p, " ", q);
    S.nontrivial(!r.inf);
    auto im = [&](const Pt &t) { return t.inf ? s.e.zero() : A::back(det::iso_map<typename X::Grp>::process(lib<X>(t))); };
    Pt P = im(p), Q = im(q), R = im(r);
    CHECK(s.e.on(P), "the isogeny maps " << p << " to " << P << ", which is not on " << X::G::name);
    CHECK(P == iso<X>(p), "the isogeny maps " << p << " to " << P << " instead of " << iso<X>(p) << " on " << X::G::name);
    CHECK(R == s.e.add(P, Q), "the isogeny maps " << p << " to " << P << ", " << q << " to " << Q << ", but their sum to " << R << " on " << X::G::name);
}
}
// first coordinates of the standard's examples (RFC 9380, J.9.1 and J.10.1, empty message)
static V hx(std::vector<const char *> s) { V v; for (auto t : s) v.push_back(Z(t, 16)); return v; }
template<class X> void example(vf::Src &S, V u, V x, V y) {
    typedef rc::Ad<typename X::G, typename X::G::Default> A;
    S.nontrivial(true);
    S.note(tw::str(u));
    Pt want {false, x, y};
    CHECK(h2::iso<X>(h2::swu<X>(u)) == want, "reference: example of the standard gives " << h2::iso<X>(h2::swu<X>(u)));
    Pt got = A::back(h2::det::map_to_curve<typename X::Grp>::process(A::fe(u)));
    CHECK(got == want, "the example of the standard gives " << got << " instead of " << want);
}
PROP(example_g1, 1, 1, "the standard's example") {
    example<h2::G1>(S, hx({"0ba14bd907ad64a016293ee7c2d276b8eae71f25a4b941eece7b0d89f17f75cb3ae5438a614fb61d6835ad59f29c564f"}),
        hx({"11a3cce7e1d90975990066b2f2643b9540fa40d6137780df4e753a8054d07580db3b7f1f03396333d4a359d1fe3766fe"}),
        hx({"0eeaf6d794e479e270da10fdaf768db4c96b650a74518fc67b04b03927754bac66f3ac720404f339ecdcc028afa091b7"}));
}
PROP(example_g2, 1, 1, "the standard's example") {
    example<h2::G2>(S, hx({"03dbc2cce174e91ba93cbb08f26b917f98194a2ea08d1cce75b2b9cc9f21689d80bd79b594a613d0a68eb807dfdc1cf8", "05a2acec64114845711a54199ea339abd125ba38253b70a92c876df10598bd1986b739cad67961eb94f7076511b3b39a"}),
        hx({"019ad3fc9c72425a998d7ab1ea0e646a1f6093444fc6965f1cad5a3195a7b1e099c050d57f45e3fa191cc6d75ed7458c", "171c88b0b0efb5eb2b88913a9e74fe111a4f68867b59db252ce5868af4d1254bfab77ebde5d61cd1a86fb2fe4a5a1c1d"}),
        hx({"0ba10604e62bdd9eeeb4156652066167b72c8d743b050fb4c1016c31b505129374f76e03fa127d6a156213576910fef3", "0eb22c7a543d3d376e9716a49b72e79a89c9bfe9feee8533ed931cbb5373dde1fbcd7411d8052e02693654f71e15410a"}));
}
static vf::Reg m1("g1_map", h2::map<h2::G1>, 400, 20000, "u is not zero", 200), m2("g2_map", h2::map<h2::G2>, 300, 15000, "u is not zero", 200);
static vf::Reg i1("g1_isogeny", h2::isogeny<h2::G1>, 300, 15000, "the sum is not the identity", 200), i2("g2_isogeny", h2::isogeny<h2::G2>, 300, 15000, "the sum is not the identity", 200);
