// C20: the stages of the pairing compose.
#include <nil/crypto3/algebra/pairing/final_exponentiation.hpp>
#include <type_traits>
#include <vector>
#define PARTS PART(PX) PART(PY) PART(PX_twist) PART(PY_twist) PART(P_XY) PART(P_XZ) PART(P_ZZplusYZ) PART(QX) PART(QY) PART(QY2) PART(QX_over_twist) PART(QY_over_twist) PART(dbl_coeffs) PART(add_coeffs) PART(coeffs) PART(c_H) PART(c_4C) PART(c_J) PART(c_L) PART(c_L1) PART(c_RZ) PART(c_ZZ) PART(c_XY) PART(c_XZ) PART(ell_0) PART(ell_VW) PART(ell_VV)
#define PART(M) template<class X, class = void> struct has_##M : std::false_type { }; template<class X> struct has_##M<X, std::void_t<decltype(std::declval<X &>().M)>> : std::true_type { };
PARTS
#undef PART

namespace alg = nil::crypto3::algebra;
typedef PC::CurveT CT;
typedef rc::Ad<PC::G1, PC::G1::Default> A1;
typedef rc::Ad<PC::G2, PC::G2::Default> A2;
typedef CT::gt_type::value_type GT;
using rc::Z;
using rc::Pt;
using rc::V;
static const tw::Tower &T() { return PC::T(); }
static V inv(const V &a) {
    V q = T().one(), f = a;
    for (std::size_t i = 1; i < T().size(); ++i) { f = T().frob(f); q = T().mul(q, f); }
    V n = T().mul(q, a);
    return T().scale(q, zn::inv(n[0], T().p));
}
// x to the power (p^k - 1) / r * (1, or 3 for bls12)
static V fe(const V &x) {
    static std::map<int, Z> ex;
    unsigned k = T().size(), d = k == 4 ? 2 : k == 6 ? 6 : 12;    // (p^k - 1) / Phi_k(p) is taken by conjugations
    Z p = T().p, phi = k == 4 ? Z(p * p + 1) : k == 6 ? Z(p * p - p + 1) : Z(p * p * p * p - p * p + 1);
    (void) d;
    Z e = phi / A1::C().r;
    CHECK(e * A1::C().r == phi, "reference: the order does not divide the cyclotomic number");
    if (k == 12) e *= 3;
    V f = T().mul(T().frobk(x, k / 2), inv(x));
    if (k == 6) f = T().mul(T().frobk(f, 1), f);
    if (k == 12) f = T().mul(T().frobk(f, 2), f);
    return T().pow(f, e);
}
static GT draw_gt(vf::Src &S, V &v) {
    v = T().draw(S);
    DISCARD_UNLESS(!tw::is0(v));
    return tw::elt<GT>(v);
}
static void power(vf::Src &S) {
    V v;
    GT x = draw_gt(S, v), k = x;
    S.note(PC::name, " ", tw::str(v));
    V w = fe(v);
    S.nontrivial(w != T().one());
    GT y = alg::final_exponentiation<CT>(x);
#ifdef PC_ALT    // the exponent of another family of curves is used
    if (T().pow(tw::flat(y), A1::C().r) != T().one() && vf::known_finding("C20_alt_bn128_final_exponentiation")) return;
#endif
    CHECK(tw::flat(y) == w, "the final exponentiation of " << tw::str(v) << " is " << tw::str(tw::flat(y)) << ", not " << tw::str(w) << " on " << PC::name);
    CHECK(T().pow(tw::flat(y), A1::C().r) == T().one(), "the final exponentiation of " << tw::str(v) << " is not of order r on " << PC::name);
    CHECK(x == k, "final_exponentiation changed its argument");
}
static void multiplicative(vf::Src &S) {
    V v, w;
    GT x = draw_gt(S, v), y = draw_gt(S, w);
    S.note(PC::name, " ", tw::str(v), " ", tw::str(w));
    S.nontrivial(!(x == GT::one()) && !(y == GT::one()));
    CHECK(alg::final_exponentiation<CT>(x * y) == alg::final_exponentiation<CT>(x) * alg::final_exponentiation<CT>(y), "the final exponentiation of " << tw::str(v) << " times " << tw::str(w) << " is not the product on " << PC::name);
    V u = v;    // a proper subfield is mapped to one
    for (std::size_t i = T().size() / 2; i < T().size(); ++i) u[i] = 0;
    if (!tw::is0(u)) CHECK(alg::final_exponentiation<CT>(tw::elt<GT>(u)) == GT::one(), "the final exponentiation of the subfield element " << tw::str(u) << " is not one on " << PC::name);
}
#ifndef PC_ALT    // the precomputation does not compile for alt_bn128
// two precomputations are equal exactly when all their parts are
template<class T> struct is_vec : std::false_type { };
template<class T> struct is_vec<std::vector<T>> : std::true_type { };
template<class P> void parts(vf::Src &S, const P &a) {
    if constexpr (is_vec<P>::value) {
        if (a.empty()) return;
        std::size_t i = S.index(a.size());
        parts(S, a[i]);
        P b = a;
        b.pop_back();
        CHECK(!(a == b), "a list without its last element compares equal on " << PC::name);
    } else {
        P k = a;
        CHECK(k == a, "a copy of a precomputation differs on " << PC::name);
        auto one = [&](auto has, auto get, const char *n) {
            if constexpr (decltype(has(a))::value) {
                P b = a;
                auto &r = get(b);
                if constexpr (is_vec<std::decay_t<decltype(r)>>::value) {
                    if (r.empty()) return;
                    parts(S, r);
                    auto &e = r[S.index(r.size())];
                    e = typename std::decay_t<decltype(r)>::value_type();
                    if (e == get(k)[&e - r.data()]) return;
                } else r = r + std::decay_t<decltype(r)>::one();
                CHECK(!(a == b) && !(b == a), "precomputations that differ in " << n << " compare equal on " << PC::name);
            }
        };
#define PART(M) one([](auto &x) { return has_##M<std::decay_t<decltype(x)>>(); }, [](auto &x) -> auto & { return x.M; }, #M);
        PARTS
#undef PART
    }
}
static void equality(vf::Src &S) {
    const rc::Curve &c1 = A1::C(), &c2 = A2::C();
    Pt p = c1.draw_sub(S), q = c2.draw_sub(S);
    S.note(PC::name, " P=", p, " Q=", q);
    DISCARD_UNLESS(p != c1.zero() && q != c2.zero());
    S.nontrivial(true);
    parts(S, alg::precompute_g1<CT>(A1::rep(S, p, true)));
    parts(S, alg::precompute_g2<CT>(A2::rep(S, q, true)));
}
static void stages(vf::Src &S) {
    const rc::Curve &c1 = A1::C(), &c2 = A2::C();
    Pt p = c1.draw_sub(S), q = c2.draw_sub(S), p2 = S.one_in(4) ? p : c1.draw_sub(S), q2 = S.one_in(4) ? q : c2.draw_sub(S);
    A1::E P = A1::rep(S, p, S.flip()), P2 = A1::rep(S, p2, S.flip()), Pa = A1::rep(S, p, true);
    A2::E Q = A2::rep(S, q, S.flip()), Q2 = A2::rep(S, q2, S.flip()), Qa = A2::rep(S, q, true);
    S.note(PC::name, " P=", p, " Q=", q, " P2=", p2, " Q2=", q2);
    bool fin = p != c1.zero() && q != c2.zero() && p2 != c1.zero() && q2 != c2.zero();
    S.nontrivial(fin && (p != p2 || q != q2));
    auto a = alg::precompute_g1<CT>(P), a2 = alg::precompute_g1<CT>(P2);
    auto b = alg::precompute_g2<CT>(Q), b2 = alg::precompute_g2<CT>(Q2);
    CHECK(a == alg::precompute_g1<CT>(Pa), "precompute_g1 depends on the representative of " << p << " on " << PC::name);
    CHECK(b == alg::precompute_g2<CT>(Qa), "precompute_g2 depends on the representative of " << q << " on " << PC::name);
    GT m = alg::miller_loop<CT>(a, b), m2 = alg::miller_loop<CT>(a2, b2);
    CHECK(!(m == GT::zero()), "the Miller loop vanishes at P=" << p << " Q=" << q << " on " << PC::name);
    CHECK(alg::pair<CT>(P, Q) == m, "pair is not the Miller loop of the precomputations; P=" << p << " Q=" << q << " on " << PC::name);
    CHECK(alg::pair_reduced<CT>(P, Q) == alg::final_exponentiation<CT>(m), "pair_reduced is not the final exponentiation of the Miller loop; P=" << p << " Q=" << q << " on " << PC::name);
    CHECK(alg::double_miller_loop<CT>(a, b, a2, b2) == m * m2, "the double Miller loop is not the product; P=" << p << " Q=" << q << " P2=" << p2 << " Q2=" << q2 << " on " << PC::name);
    // e(P, Q) e(-P, Q) = 1 through the double loop
    auto n = alg::precompute_g1<CT>(-P);
    CHECK(alg::final_exponentiation<CT>(alg::double_miller_loop<CT>(a, b, n, b)) == GT::one(), "e(P, Q) e(-P, Q) is not one; P=" << p << " Q=" << q << " on " << PC::name);
}
#endif
static vf::Reg r1((new std::string(std::string(PC::name) + "_power"))->c_str(), power, 60, 4000, "the result is not one", 200);
static vf::Reg r2((new std::string(std::string(PC::name) + "_multiplicative"))->c_str(), multiplicative, 60, 4000, "neither element is one", 200);
#ifndef PC_ALT
static vf::Reg r4((new std::string(std::string(PC::name) + "_equality"))->c_str(), equality, 30, 300, "finite points", 200);
static vf::Reg r3((new std::string(std::string(PC::name) + "_stages"))->c_str(), stages, 40, 3000, "finite points, different pairs", 200);
#endif
