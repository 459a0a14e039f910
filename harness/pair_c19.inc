// C19: the reduced pairing is bilinear and non-degenerate.
namespace alg = nil::crypto3::algebra;
typedef PC::CurveT CT;
typedef rc::Ad<PC::G1, PC::G1::Default> A1;
typedef rc::Ad<PC::G2, PC::G2::Default> A2;
typedef CT::gt_type::value_type GT;
using rc::Z;
using rc::Pt;
using rc::V;
static V red(const A1::E &a, const A2::E &b) { return tw::flat(alg::pair_reduced<CT>(a, b)); }
static const tw::Tower &T() { return PC::T(); }
static void bilinear(vf::Src &S) {
    const rc::Curve &c1 = A1::C(), &c2 = A2::C();
    Pt p = c1.draw_sub(S), q = c2.draw_sub(S);
    Z a = zn::draw_scalar(S, c1.r, zn::bits(c1.r) + 3), b = S.one_in(3) ? Z(1) : zn::draw_scalar(S, c1.r, zn::bits(c1.r) + 3);
    A1::E P = A1::rep(S, p, S.flip()), kP = P;
    A2::E Q = A2::rep(S, q, S.flip()), kQ = Q;
    A1::E aP = A1::rep(S, c1.mul(a, p), S.flip());
    A2::E bQ = A2::rep(S, c2.mul(b, q), S.flip());
    S.note(PC::name, " a=", zn::hex(a), " b=", zn::hex(b), " P=", p, " Q=", q);
    bool trivial = p == c1.zero() || q == c2.zero();
    S.nontrivial(!trivial && a > 1);
    V g = red(P, Q), h = red(aP, bQ), w = T().pow(g, zn::mod(a * b, c1.r));
    CHECK(h == w, "the pairing of " << zn::hex(a) << " P with " << zn::hex(b) << " Q is " << tw::str(h) << ", not the power " << tw::str(w) << " of " << tw::str(g) << "; P=" << p << " Q=" << q << " on " << PC::name);
    CHECK(T().pow(g, c1.r) == T().one(), "the value " << tw::str(g) << " is not of order r; P=" << p << " Q=" << q << " on " << PC::name);
    CHECK((g == T().one()) == trivial, "the pairing of " << p << " and " << q << " is " << tw::str(g) << " on " << PC::name);
    CHECK(P == kP && Q == kQ, "pair_reduced changed its arguments");
}
static void additive(vf::Src &S) {
    const rc::Curve &c1 = A1::C(), &c2 = A2::C();
    Pt p = c1.draw_sub(S), q = c2.draw_sub(S);
    bool first = S.flip();
    S.note(PC::name, " P=", p, " Q=", q, " first ", first);
    if (first) {
        Pt r = S.one_in(3) ? p : S.one_in(4) ? c1.neg(p) : c1.draw_sub(S);
        A1::E P = A1::rep(S, p, S.flip()), R = A1::rep(S, r, S.flip());
        A2::E Q = A2::rep(S, q, S.flip());
        S.nontrivial(p != c1.zero() && q != c2.zero() && r != c1.zero());
        CHECK(red(P + R, Q) == T().mul(red(P, Q), red(R, Q)), "e(P + R, Q) is not e(P, Q) e(R, Q) for P=" << p << " R=" << r << " Q=" << q << " on " << PC::name);
    } else {
        Pt r = S.one_in(3) ? q : S.one_in(4) ? c2.neg(q) : c2.draw_sub(S);
        A1::E P = A1::rep(S, p, S.flip());
        A2::E Q = A2::rep(S, q, S.flip()), R = A2::rep(S, r, S.flip());
        S.nontrivial(p != c1.zero() && q != c2.zero() && r != c2.zero());
        CHECK(red(P, Q + R) == T().mul(red(P, Q), red(P, R)), "e(P, Q + R) is not e(P, Q) e(P, R) for P=" << p << " Q=" << q << " R=" << r << " on " << PC::name);
    }
}
static void library(vf::Src &S) {    // scalars of the library, power of the library
    typedef CT::scalar_field_type Fr;
    const rc::Curve &c1 = A1::C();
    Z a = zn::draw_mod(S, c1.r), b = zn::draw_mod(S, c1.r);
    Fr::value_type fa(zn::to_num<Fr::integral_type>(a)), fb(zn::to_num<Fr::integral_type>(b));
    A1::E P = A1::E::one();
    A2::E Q = A2::E::one();
    S.note(PC::name, " a=", zn::hex(a), " b=", zn::hex(b));
    S.nontrivial(a > 1 && b > 1);
    GT g = alg::pair_reduced<CT>(P, Q), h = alg::pair_reduced<CT>(P * fa, Q * fb), w = g.pow(Fr::integral_type((fa * fb).data));
    CHECK(h == w, "e(aG, bH) is not e(G, H)^(ab) for a=" << zn::hex(a) << " b=" << zn::hex(b) << " on " << PC::name);
    CHECK(!(g == GT::one()), "e(G, H) is one on " << PC::name);
    CHECK(g.pow(Fr::modulus) == GT::one(), "e(G, H)^r is not one on " << PC::name);
}
static vf::Reg r1((new std::string(std::string(PC::name) + "_bilinear"))->c_str(), bilinear, 60, 4000, "finite points, scalar above one", 200);
static vf::Reg r2((new std::string(std::string(PC::name) + "_additive"))->c_str(), additive, 60, 4000, "finite points", 200);
static vf::Reg r3((new std::string(std::string(PC::name) + "_library"))->c_str(), library, 12, 800, "scalars above one", 200);
