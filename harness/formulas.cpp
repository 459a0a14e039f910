// C12: the explicit formulas, each against textbook affine arithmetic over random small and large prime fields.
#include "toy.hpp"
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/dbl_2009_l.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/add_1998_cmo_2.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/add_1998_cmo_2.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/add_2008_bbjlp.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/dbl_2008_bbjlp.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/madd_2008_bbjlp.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/add_2008_hwcd_3.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/dbl_2008_hwcd.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/madd_2008_hwcd_2.hpp>
namespace dt = nil::crypto3::algebra::curves::detail;

struct P { static F a, b, c, d; typedef FieldTag field_type; };
F P::a, P::b, P::c, P::d;
template<class Zero> struct El {
    typedef FieldTag field_type;
    typedef P params_type;
    F X, Y, T, Z;
    bool is_zero() const { return Zero::is(*this); }
    friend std::ostream &operator<<(std::ostream &o, const El &e) { return o << "[" << e.X << ":" << e.Y << ":" << e.Z << " T " << e.T << "]"; }
};
struct ZeroZ { template<class E> static bool is(const E &e) { return e.Z.is_zero(); } };
struct ZeroYZ { template<class E> static bool is(const E &e) { return e.Y.is_zero() && e.Z.is_zero(); } };
struct ZeroExt { template<class E> static bool is(const E &e) { return e.X.is_zero() && e.T.is_zero() && e.Y == e.Z; } };

// coordinate systems: representation of an affine point with parameter z, and back
struct Jac {
    typedef El<ZeroZ> E;
    static E rep(Pt p, F z) { E e; e.X = p.x * z * z; e.Y = p.y * z * z * z; e.Z = z; return e; }
    static Pt back(const E &e) { if (e.Z.is_zero()) return Pt {true, F(), F()}; F i = e.Z.inversed(); return Pt {false, e.X * i * i, e.Y * i * i * i}; }
};
struct Proj {
    typedef El<ZeroZ> E;
    static E rep(Pt p, F z) { E e; e.X = p.x * z; e.Y = p.y * z; e.Z = z; return e; }
    static Pt back(const E &e) { if (e.Z.is_zero()) return Pt {true, F(), F()}; F i = e.Z.inversed(); return Pt {false, e.X * i, e.Y * i}; }
};

static void setup(F a, F b, F c, F d) { P::a = a; P::b = b; P::c = c; P::d = d; }
static std::string on_curve() { return "over GF(" + vf::str(F::p) + "), a=" + vf::str(P::a) + " b=" + vf::str(P::b) + " c=" + vf::str(P::c) + " d=" + vf::str(P::d); }
#define ON_CURVE on_curve()
template<class E> void same_elem(const E &a, const E &b) { CHECK(a.X == b.X && a.Y == b.Y && a.Z == b.Z && a.T == b.T, "an operand changed " << ON_CURVE); }

template<class R, class Add> void sw_add(vf::Src &S, int kind, bool mixed) {
    toy_field(S);
    SW c = gen_sw(S, kind);
    setup(c.a, c.b, F(1), F(1));
    Pt p = gen_point(S, c), q = gen_related(S, c, p);
    DISCARD_UNLESS(!p.inf && !q.inf && p != q);
    F z1 = S.u64(3) ? nonzero(S) : F(1), z2 = mixed ? F(1) : S.u64(3) ? nonzero(S) : z1;
    auto e = R::rep(p, z1), f = R::rep(q, z2), f0 = f;
    S.note(ON_CURVE, ": ", p, "@", z1, " + ", q, "@", z2);
    S.nontrivial(z1 != F(1) || !z2.is_one());
    Pt want = c.add(p, q);
    Add::process(e, f);
    Pt got = R::back(e);
    CHECK(got == want, p << " (Z=" << z1 << ") + " << q << " (Z=" << z2 << ") is " << want << ", the formula gives " << got << " as " << e << " " << ON_CURVE);
    same_elem(f, f0);
}
template<class R, class Dbl> void sw_dbl(vf::Src &S, int kind) {
    toy_field(S);
    SW c = gen_sw(S, kind);
    setup(c.a, c.b, F(1), F(1));
    Pt p = gen_point(S, c);
    if (!p.inf && S.one_in(6)) {    // a point of order two
        F x = any(S);
        c.b = -(x * x * x + c.a * x);
        setup(c.a, c.b, F(1), F(1));
        DISCARD_UNLESS(!(F(4) * c.a * c.a * c.a + F(27) * c.b * c.b).is_zero());
        p = Pt {false, x, F(0)};
    }
    F z = S.u64(3) ? nonzero(S) : F(1);
    typename R::E e;
    if (p.inf) { e.X = any(S); e.Y = any(S); e.Z = F(0); } else e = R::rep(p, z);
    S.note(ON_CURVE, ": 2 * ", p, "@", z);
    S.nontrivial(!p.inf && z != F(1));
    Pt want = c.add(p, p);
    Dbl::process(e);
    Pt got = R::back(e);
    CHECK(got == want, "2 * " << p << " (Z=" << z << ") is " << want << ", the formula gives " << got << " as " << e << " " << ON_CURVE);
}
#define SWRULE "an operand is not normalised"
PROP(jacobian_add, 30000, 3000000, SWRULE) { sw_add<Jac, dt::short_weierstrass_element_g1_jacobian_add_2007_bl>(S, S.u64(3) ? 0 : 1, false); }
PROP(jacobian_madd, 30000, 3000000, SWRULE) { sw_add<Jac, dt::short_weierstrass_element_g1_jacobian_madd_2007_bl>(S, S.u64(3) ? 0 : 1, true); }
PROP(jacobian_dbl, 30000, 3000000, SWRULE) { sw_dbl<Jac, dt::short_weierstrass_element_g1_jacobian_dbl_2007_bl>(S, S.u64(3) ? 0 : 1); }
PROP(jacobian_a0_add, 30000, 3000000, SWRULE) { sw_add<Jac, dt::short_weierstrass_element_g1_jacobian_with_a4_0_add_2007_bl>(S, 1, false); }
PROP(jacobian_a0_madd, 30000, 3000000, SWRULE) { sw_add<Jac, dt::short_weierstrass_element_g1_jacobian_with_a4_0_madd_2007_bl>(S, 1, true); }
PROP(jacobian_a0_dbl, 30000, 3000000, SWRULE) { sw_dbl<Jac, dt::short_weierstrass_element_g1_jacobian_with_a4_0_dbl_2009_l>(S, 1); }
PROP(jacobian_am3_add, 30000, 3000000, SWRULE) { sw_add<Jac, dt::short_weierstrass_element_g1_jacobian_with_a4_minus_3_add_2007_bl>(S, 2, false); }
PROP(jacobian_am3_madd, 30000, 3000000, SWRULE) { sw_add<Jac, dt::short_weierstrass_element_g1_jacobian_with_a4_minus_3_madd_2007_bl>(S, 2, true); }
PROP(jacobian_am3_dbl, 30000, 3000000, SWRULE) { sw_dbl<Jac, dt::short_weierstrass_element_g1_jacobian_with_a4_minus_3_dbl_2007_bl>(S, 2); }
PROP(projective_add, 30000, 3000000, SWRULE) { sw_add<Proj, dt::short_weierstrass_element_g1_projective_add_1998_cmo_2>(S, S.u64(3) ? 0 : 1, false); }
PROP(projective_dbl, 30000, 3000000, SWRULE) { sw_dbl<Proj, dt::short_weierstrass_element_g1_projective_dbl_2007_bl>(S, S.u64(3) ? 0 : 1); }
PROP(projective_am3_add, 30000, 3000000, SWRULE) { sw_add<Proj, dt::short_weierstrass_element_g1_projective_with_a4_minus_3_add_1998_cmo_2>(S, 2, false); }
PROP(projective_am3_dbl, 30000, 3000000, SWRULE) { sw_dbl<Proj, dt::short_weierstrass_element_g1_projective_with_a4_minus_3_dbl_2007_bl>(S, 2); }

// inverted Edwards coordinates: x = Z/X, y = Z/Y; points with a zero affine coordinate (order 1, 2, 4) have none
static bool inv_ok(Pt p) { return !p.x.is_zero() && !p.y.is_zero(); }
static El<ZeroYZ> inv_rep(Pt p, F z) { El<ZeroYZ> e; e.X = z / p.x; e.Y = z / p.y; e.Z = z; return e; }
template<class Op> void inv_op(vf::Src &S, int kind, int op) {    // op 0 add, 1 mixed add, 2 double
    toy_field(S);
    Ed c = gen_ed(S, kind);
    setup(c.a, F(1), c.c, c.d);
    Pt p = gen_point(S, c), q = op == 2 ? p : gen_related(S, c, p);
    if (op == 2 && p == c.zero()) {    // doubling leaves the identity alone
        El<ZeroYZ> e;
        e.X = nonzero(S);
        if constexpr (std::is_invocable<decltype(&Op::template process<El<ZeroYZ>>), El<ZeroYZ> &>::value) Op::process(e);
        CHECK(e.is_zero(), "doubling the identity gives " << e << " " << ON_CURVE);
        return;
    }
    DISCARD_UNLESS(inv_ok(p) && inv_ok(q));
    Pt want = c.add(p, q);
    DISCARD_UNLESS(inv_ok(want) || (want == c.zero() && op != 2));
    F z1 = S.u64(3) ? nonzero(S) : F(1), z2 = op == 1 ? F(1) : S.u64(3) ? nonzero(S) : z1;
    auto e = inv_rep(p, z1), f = inv_rep(q, z2), f0 = f;
    S.note(ON_CURVE, ": ", p, "@", z1, " + ", q, "@", z2);
    S.nontrivial(!z1.is_one() || !z2.is_one());
    if constexpr (std::is_invocable<decltype(&Op::template process<El<ZeroYZ>>), El<ZeroYZ> &>::value) Op::process(e);
    else Op::process(e, f);
    if (want == c.zero()) {
        CHECK(e.is_zero(), p << " + " << q << " is the identity, the formula gives " << e << " " << ON_CURVE);
    } else {
        CHECK(!e.Z.is_zero() && e.X * want.x == e.Z && e.Y * want.y == e.Z,
              p << " (Z=" << z1 << ") + " << q << " (Z=" << z2 << ") is " << want << ", the formula gives " << e << " " << ON_CURVE);
    }
    same_elem(f, f0);
}
#define EDRULE "an operand is not normalised"
PROP(edwards_inverted_add, 40000, 3000000, EDRULE) { inv_op<dt::edwards_element_g1_inverted_add_2007_bl>(S, 2, 0); }
PROP(edwards_inverted_madd, 40000, 3000000, EDRULE) { inv_op<dt::edwards_element_g1_inverted_madd_2007_bl>(S, 2, 1); }
PROP(edwards_inverted_dbl, 40000, 3000000, EDRULE) { inv_op<dt::edwards_element_g1_inverted_dbl_2007_bl>(S, 2, 2); }
PROP(twisted_inverted_add, 40000, 3000000, EDRULE) { inv_op<dt::twisted_edwards_element_g1_inverted_add_2008_bbjlp>(S, 0, 0); }
PROP(twisted_inverted_madd, 40000, 3000000, EDRULE) { inv_op<dt::twisted_edwards_element_g1_inverted_madd_2008_bbjlp>(S, 0, 1); }
PROP(twisted_inverted_dbl, 40000, 3000000, EDRULE) { inv_op<dt::twisted_edwards_element_g1_inverted_dbl_2008_bbjlp>(S, 0, 2); }

// extended coordinates, a = -1: x = X/Z, y = Y/Z, T = XY/Z
static El<ZeroExt> ext_rep(Pt p, F z) { El<ZeroExt> e; e.X = p.x * z; e.Y = p.y * z; e.Z = z; e.T = p.x * p.y * z; return e; }
template<class Op> void ext_op(vf::Src &S, int op) {
    toy_field(S);
    Ed c = gen_ed(S, S.flip() ? 1 : 4);
    setup(c.a, F(1), F(1), c.d);
    Pt p = gen_point(S, c), q = op == 2 ? p : gen_related(S, c, p);
    Pt want = c.add(p, q);
    if (op == 1)    // the dedicated formula excludes these
        DISCARD_UNLESS(p.x * q.y != p.y * q.x && !(p.y * q.y + c.a * p.x * q.x).is_zero());
    F z1 = S.u64(3) ? nonzero(S) : F(1), z2 = op == 1 ? F(1) : S.u64(3) ? nonzero(S) : z1;
    auto e = ext_rep(p, z1), f = ext_rep(q, z2), f0 = f;
    S.note(ON_CURVE, ": ", p, "@", z1, " + ", q, "@", z2);
    S.nontrivial(!z1.is_one() || !z2.is_one());
    if constexpr (std::is_invocable<decltype(&Op::template process<El<ZeroExt>>), El<ZeroExt> &>::value) Op::process(e);
    else Op::process(e, f);
    CHECK(!e.Z.is_zero() && e.X == want.x * e.Z && e.Y == want.y * e.Z && e.T == want.x * want.y * e.Z,
          p << " (Z=" << z1 << ") + " << q << " (Z=" << z2 << ") is " << want << ", the formula gives " << e << " " << ON_CURVE);
    same_elem(f, f0);
}
PROP(extended_add, 40000, 3000000, EDRULE) { ext_op<dt::twisted_edwards_element_g1_extended_with_a_minus_1_add_2008_hwcd_3>(S, 0); }
PROP(extended_madd, 40000, 3000000, EDRULE) { ext_op<dt::twisted_edwards_element_g1_extended_with_a_minus_1_madd_2008_hwcd_2>(S, 1); }
PROP(extended_dbl, 40000, 3000000, EDRULE) { ext_op<dt::twisted_edwards_element_g1_extended_with_a_minus_1_dbl_2008_hwcd>(S, 2); }
