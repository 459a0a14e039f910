// C12/C13/C15/C16 on toy curves: histories of group operations on the element classes, instantiated
// over a prime field chosen per case, against textbook affine arithmetic.
#include "toy.hpp"
#include <nil/crypto3/multiprecision/cpp_modular.hpp>
#include <boost/multiprecision/cpp_int.hpp>
namespace bmp = boost::multiprecision;
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/subgroup_check.hpp>
namespace cv = nil::crypto3::algebra::curves;
namespace co = nil::crypto3::algebra::curves::coordinates;
typedef cv::forms FM;

// curve parameters, set per case
struct GField { typedef F value_type; typedef bmp::cpp_int integral_type; };
#define FieldTag GField
struct ScalarTag;
struct Curve;
struct ParamsBase {
    typedef FieldTag field_type;
    typedef FieldTag base_field_type;
    typedef FieldTag scalar_field_type;
    static F a, b, d;
    static std::uint64_t A, B;    // integers, as in the curves of the library
    static std::array<F, 2> zero_fill, one_fill;
};
F ParamsBase::a, ParamsBase::b, ParamsBase::d;
std::uint64_t ParamsBase::A, ParamsBase::B;
std::array<F, 2> ParamsBase::zero_fill, ParamsBase::one_fill;
template<class Form> struct Params;
template<class Form, class Coord> struct Group {
    typedef Curve curve_type;
    typedef Form form;
    typedef FieldTag field_type;
    typedef Params<Form> params_type;
    typedef cv::detail::curve_element<Params<Form>, Form, Coord> value_type;
    static constexpr std::size_t value_bits = 0;
};
struct Curve {
    template<class Coord, class Form> using g1_type = Group<Form, Coord>;
    typedef FieldTag base_field_type;
    struct scalar_field_type : FieldTag { static bmp::cpp_int modulus; };
};
bmp::cpp_int Curve::scalar_field_type::modulus;
template<class Form> struct Params : ParamsBase {
    template<class Coord> using group_type = Group<Form, Coord>;
};
template<class Form, class Coord> using Elem = cv::detail::curve_element<Params<Form>, Form, Coord>;

static void sw_setup(vf::Src &S, const SW &c) {
    Params<FM::short_weierstrass>::a = c.a;
    Params<FM::short_weierstrass>::b = c.b;
    // the two conventions of the library for infinity; neither may be on the curve
    bool std_inf = S.flip();
    if (c.b == F(1)) std_inf = false;
    if (c.b == F(0)) std_inf = true;
    ParamsBase::zero_fill = {F(0), F(std_inf ? 1 : 0)};
}
#define OVER " over GF(" << F::p << ") a=" << ParamsBase::a << " b=" << ParamsBase::b << " d=" << ParamsBase::d << " A=" << ParamsBase::A << " B=" << ParamsBase::B

// --- one adapter per coordinate system -------------------------------------------------------------
template<class E, class C, int Kind> struct SWA {    // shared by the short Weierstrass systems
    typedef E Elem_;
    typedef C Curve_;
    static C gen_curve(vf::Src &S) { C c = gen_sw(S, Kind); sw_setup(S, c); return c; }
    static Pt gen(vf::Src &S, const C &c) {
        Pt p = gen_point(S, c);
        return p;
    }
    static bool representable(const C &, Pt) { return true; }
    static bool is_affine_neutral(Pt p, const C &) { return p.inf; }
};
template<class C, int K> struct AffSW : SWA<Elem<FM::short_weierstrass, co::affine>, C, K> {
    typedef Elem<FM::short_weierstrass, co::affine> E;
    static E rep(vf::Src &, const C &, Pt p, bool) { return p.inf ? E() : E(p.x, p.y); }
    static Pt back(const C &, const E &e) { if (e.X == ParamsBase::zero_fill[0] && e.Y == ParamsBase::zero_fill[1]) return Pt {true, F(), F()}; return Pt {false, e.X, e.Y}; }
    static constexpr bool has_mixed = false, has_wf = true;
};
template<class Coord, int K> struct JacSW : SWA<Elem<FM::short_weierstrass, Coord>, SW, K> {
    typedef Elem<FM::short_weierstrass, Coord> E;
    static E rep(vf::Src &S, const SW &, Pt p, bool norm) {
        if (p.inf) return S.flip() ? E() : E(any(S), any(S), F(0));
        F z = norm || S.u64(2) == 0 ? F(1) : nonzero(S);
        return E(p.x * z * z, p.y * z * z * z, z);
    }
    static Pt back(const SW &, const E &e) { if (e.Z.is_zero()) return Pt {true, F(), F()}; F i = e.Z.inversed(); return Pt {false, e.X * i * i, e.Y * i * i * i}; }
    static constexpr bool has_mixed = true, has_wf = true;
};
template<class Coord, int K> struct ProjSW : SWA<Elem<FM::short_weierstrass, Coord>, SW, K> {
    typedef Elem<FM::short_weierstrass, Coord> E;
    static E rep(vf::Src &S, const SW &, Pt p, bool norm) {
        if (p.inf) return S.flip() ? E() : E(F(0), nonzero(S), F(0));
        F z = norm || S.u64(2) == 0 ? F(1) : nonzero(S);
        return E(p.x * z, p.y * z, z);
    }
    static Pt back(const SW &, const E &e) { if (e.Z.is_zero()) return Pt {true, F(), F()}; F i = e.Z.inversed(); return Pt {false, e.X * i, e.Y * i}; }
    static constexpr bool has_mixed = true, has_wf = true;
};
template<class E, int K> struct EdA {
    typedef E Elem_;
    typedef Ed Curve_;
    static Ed gen_curve(vf::Src &S) {
        Ed c = gen_ed(S, K);
        ParamsBase::a = c.a;
        ParamsBase::d = c.d;
        ParamsBase::b = F(0);
        ParamsBase::zero_fill = {F(0), F(S.flip() ? 1 : 0)};
        return c;
    }
    static bool is_affine_neutral(Pt p, const Ed &c) { return p == c.zero(); }
};
struct AffEd : EdA<Elem<FM::twisted_edwards, co::affine>, 3> {
    typedef Elem<FM::twisted_edwards, co::affine> E;
    static Pt gen(vf::Src &S, const Ed &c) { return gen_point(S, c); }
    static bool representable(const Ed &, Pt) { return true; }
    static E rep(vf::Src &S, const Ed &c, Pt p, bool) { return p == c.zero() && S.flip() ? E() : E(p.x, p.y); }
    static Pt back(const Ed &c, const E &e) { if (e.X == ParamsBase::zero_fill[0] && e.Y == ParamsBase::zero_fill[1]) return c.zero(); return Pt {false, e.X, e.Y}; }
    static constexpr bool has_mixed = false, has_wf = true;
};
struct InvEd : EdA<Elem<FM::twisted_edwards, co::inverted>, 3> {
    typedef Elem<FM::twisted_edwards, co::inverted> E;
    static Pt gen(vf::Src &S, const Ed &c) { return odd_part(c, gen_point(S, c)); }    // the others have no inverted form
    static bool representable(const Ed &c, Pt p) { return p == c.zero() || (!p.x.is_zero() && !p.y.is_zero()); }
    static E rep(vf::Src &S, const Ed &c, Pt p, bool norm) {
        if (p == c.zero()) return S.flip() ? E() : E(nonzero(S), F(0), F(0));
        F z = norm || S.u64(2) == 0 ? F(1) : nonzero(S);
        return E(z / p.x, z / p.y, z);
    }
    static Pt back(const Ed &c, const E &e) {
        if (e.Y.is_zero() && e.Z.is_zero()) return c.zero();
        CHECK(!e.X.is_zero() && !e.Y.is_zero() && !e.Z.is_zero(), "element " << e << " denotes no point" << OVER);
        return Pt {false, e.Z / e.X, e.Z / e.Y};
    }
    static constexpr bool has_mixed = true, has_wf = true;
};
struct ExtEd : EdA<Elem<FM::twisted_edwards, co::extended_with_a_minus_1>, 4> {
    typedef Elem<FM::twisted_edwards, co::extended_with_a_minus_1> E;
    static Pt gen(vf::Src &S, const Ed &c) { return gen_point(S, c); }
    static bool representable(const Ed &, Pt) { return true; }
    static E rep(vf::Src &S, const Ed &, Pt p, bool norm) {
        F z = norm || S.u64(2) == 0 ? F(1) : nonzero(S);
        return E(p.x * z, p.y * z, p.x * p.y * z, z);
    }
    static Pt back(const Ed &, const E &e) {
        CHECK(!e.Z.is_zero() && e.X * e.Y == e.T * e.Z, "element " << e << " denotes no point" << OVER);
        F i = e.Z.inversed();
        return Pt {false, e.X * i, e.Y * i};
    }
    static constexpr bool has_mixed = true, has_wf = true;
};
struct AffMont {
    typedef Elem<FM::montgomery, co::affine> E;
    typedef E Elem_;
    typedef Mont Curve_;
    static Mont gen_curve(vf::Src &S) {
        Mont c;
        c.A = any(S);
        c.B = nonzero(S);
        DISCARD_UNLESS(c.A * c.A != F(4));
        ParamsBase::A = c.A.v;
        ParamsBase::B = c.B.v;
        ParamsBase::zero_fill = {F(0), F(1)};
        return c;
    }
    static Pt gen(vf::Src &S, const Mont &c) { return gen_point(S, c); }
    static bool representable(const Mont &, Pt) { return true; }
    static bool is_affine_neutral(Pt p, const Mont &) { return p.inf; }
    static E rep(vf::Src &, const Mont &, Pt p, bool) { return p.inf ? E() : E(p.x, p.y); }
    static Pt back(const Mont &, const E &e) { return e.is_zero() ? Pt {true, F(), F()} : Pt {false, e.X, e.Y}; }
    static constexpr bool has_mixed = false, has_wf = true;
};

template<class A> void show_elem(std::ostream &o, const typename A::E &e) { o << e; }
template<class E, class = void> struct has_wf_ : std::false_type { };
template<class E> struct has_wf_<E, std::void_t<decltype(std::declval<const E &>().is_well_formed())>> : std::true_type { };
template<class E, class = void> struct has_aff_ : std::false_type { };
template<class E> struct has_aff_<E, std::void_t<decltype(std::declval<const E &>().to_affine())>> : std::true_type { };
template<class E, class = void> struct has_sub_ : std::false_type { };
template<class E> struct has_sub_<E, std::void_t<decltype(std::declval<E &>() -= std::declval<const E &>())>> : std::true_type { };
template<class E, class = void> struct printable : std::false_type { };
template<class E> struct printable<E, std::void_t<decltype(std::declval<std::ostream &>() << std::declval<const E &>())>> : std::true_type { };

template<class A> struct World {
    typedef typename A::E E;
    vf::Src &S;
    typename A::Curve_ c;
    E el[3];
    Pt pt[3];
    std::string log;
    World(vf::Src &s) : S(s) { toy_field(S); c = A::gen_curve(S); }
    std::string where() { std::ostringstream o; o << OVER; return o.str() + ": " + log; }
    void put(int i, Pt p) { pt[i] = p; el[i] = A::rep(S, c, p, false); }
    void check(int i) {
        Pt got = A::back(c, el[i]);
        CHECK(got == pt[i], "the point should be " << pt[i] << ", the element denotes " << got << where());
        CHECK(el[i].is_zero() == A::is_affine_neutral(pt[i], c), "is_zero of " << pt[i] << where());
        if constexpr (has_wf_<E>::value) CHECK(el[i].is_well_formed(), "the result " << pt[i] << " is reported off the curve" << where());
    }
    void check_eq(int i, int j) {
        bool want = pt[i] == pt[j];
        CHECK((el[i] == el[j]) == want && (el[i] != el[j]) == !want && (el[j] == el[i]) == want, "comparison of " << pt[i] << " and " << pt[j] << where());
        E other = A::rep(S, c, pt[i], false);
        CHECK(other == el[i] && el[i] == other && !(other != el[i]), "two representations of " << pt[i] << " differ" << where());
        if constexpr (has_aff_<E>::value) {
            auto f = el[i].to_affine();
            Pt back = f.is_zero() ? c.zero() : Pt {false, f.X, f.Y};
            CHECK(back == pt[i], "to_affine of " << pt[i] << " gives " << back << where());
        }
    }
};

template<class A> void history(vf::Src &S) {
    World<A> w(S);
    typedef typename A::E E;
    for (int i = 0; i < 3; ++i) w.put(i, i ? A::gen(S, w.c) : A::gen(S, w.c));
    if (S.flip()) w.put(1, w.pt[0]);
    int special = 0, steps = 1 + (int) S.u64(11);
    for (int n = 0; n < steps; ++n) {
        int i = (int) S.u64(2), j = (int) S.u64(2);
        Pt &p = w.pt[i], q = w.pt[j];
        special += p == q || p == w.c.neg(q) || A::is_affine_neutral(p, w.c) || A::is_affine_neutral(q, w.c);
        std::ostringstream o;
        o << " [" << p << (i == j ? " self" : "") << " ";
        E before = w.el[j];
        switch (S.u64(9)) {
            case 0: o << "+= " << q; w.log += o.str() + "]"; p = w.c.add(p, q); w.el[i] += w.el[j]; break;
            case 1: o << "+ " << q; w.log += o.str() + "]"; p = w.c.add(p, q); w.el[i] = w.el[i] + w.el[j]; break;
            case 2: o << "- " << q; w.log += o.str() + "]"; p = w.c.add(p, w.c.neg(q)); w.el[i] = w.el[i] - w.el[j]; break;
            case 3: o << "-= " << q; w.log += o.str() + "]"; p = w.c.add(p, w.c.neg(q)); if constexpr (has_sub_<E>::value) w.el[i] -= w.el[j]; else w.el[i] = w.el[i] - w.el[j]; break;
            case 4: o << "negate"; w.log += o.str() + "]"; p = w.c.neg(p); w.el[i] = -w.el[i]; break;
            case 5: o << "double"; w.log += o.str() + "]"; p = w.c.add(p, p); w.el[i].double_inplace(); break;
            case 6:
                if constexpr (A::has_mixed) {
                    E f = A::rep(S, w.c, q, true);
                    o << "mixed_add " << q;
                    w.log += o.str() + "]";
                    p = w.c.add(p, q);
                    w.el[i].mixed_add(f);
                }
                break;
            case 7: { Pt r = S.u64(3) == 0 ? w.c.zero() : A::gen(S, w.c); o << "= " << r; w.log += o.str() + "]"; w.put(i, r); break; }
            case 8: { Pt r = S.flip() ? q : w.c.neg(q); o << "= " << r; w.log += o.str() + "]"; w.put(i, r); break; }
            case 9: o << "+ right " << q; w.log += o.str() + "]"; p = w.c.add(q, p); w.el[i] = w.el[j] + w.el[i]; break;
        }
        w.check(i);
        if (i != j) { CHECK(w.el[j] == before, "the right operand changed" << w.where()); w.check(j); }
        w.check_eq(i, (int) S.u64(2));
    }
    S.note(w.where());
    S.nontrivial(special > 0 && steps > 1);
    CHECK(E::zero().is_zero() && E().is_zero() && E::zero() == E(), "zero() is not the identity" << OVER);
}
#define HRULE "at least two steps, one of them on equal, opposite or identity operands"
typedef AffSW<SW, 0> A_affine;
typedef JacSW<co::jacobian, 0> A_jac;
typedef JacSW<co::jacobian_with_a4_0, 1> A_jac0;
typedef JacSW<co::jacobian_with_a4_minus_3, 2> A_jac3;
typedef ProjSW<co::projective, 0> A_proj;
typedef ProjSW<co::projective_with_a4_minus_3, 2> A_proj3;
#ifdef TOY_HISTORY
PROP(history_sw_affine, 20000, 2000000, HRULE) { history<A_affine>(S); }
PROP(history_sw_jacobian, 20000, 2000000, HRULE) { history<A_jac>(S); }
PROP(history_sw_jacobian_a0, 20000, 2000000, HRULE) { history<A_jac0>(S); }
PROP(history_sw_jacobian_am3, 20000, 2000000, HRULE) { history<A_jac3>(S); }
PROP(history_sw_projective, 20000, 2000000, HRULE) { history<A_proj>(S); }
PROP(history_sw_projective_am3, 20000, 2000000, HRULE) { history<A_proj3>(S); }
PROP(history_te_affine, 20000, 2000000, HRULE) { history<AffEd>(S); }
PROP(history_te_inverted, 20000, 2000000, HRULE) { history<InvEd>(S); }
PROP(history_te_extended, 20000, 2000000, HRULE) { history<ExtEd>(S); }
PROP(history_montgomery, 20000, 2000000, HRULE) { history<AffMont>(S); }
// a point that is not on the curve is reported as such
template<class A> void off_curve(vf::Src &S) {
    World<A> w(S);
    Pt p = {false, any(S), any(S)};
    DISCARD_UNLESS(!w.c.on(p) && !p.x.is_zero() && !p.y.is_zero());
    S.note(p, w.where());
    S.nontrivial(true);
    auto e = A::rep(S, w.c, p, false);
    CHECK(!e.is_well_formed(), p << " is reported to be on the curve" << w.where());
}
#define OFF "every generated point is off the curve"
PROP(off_sw_jacobian, 5000, 500000, OFF) { off_curve<A_jac>(S); }
PROP(off_sw_jacobian_a0, 5000, 500000, OFF) { off_curve<A_jac0>(S); }
PROP(off_sw_jacobian_am3, 5000, 500000, OFF) { off_curve<A_jac3>(S); }
PROP(off_sw_projective, 5000, 500000, OFF) { off_curve<A_proj>(S); }
PROP(off_sw_projective_am3, 5000, 500000, OFF) { off_curve<A_proj3>(S); }
PROP(off_te_affine, 5000, 500000, OFF) { off_curve<AffEd>(S); }
PROP(off_te_inverted, 5000, 500000, OFF) { off_curve<InvEd>(S); }
PROP(off_te_extended, 5000, 500000, OFF) { off_curve<ExtEd>(S); }
PROP(off_montgomery, 5000, 500000, OFF) { off_curve<AffMont>(S); }
#endif

#ifdef TOY_CONVERT
// C15: conversions
static Pt aff(const Elem<FM::short_weierstrass, co::affine> &f) { return f.is_zero() ? Pt {true, F(), F()} : Pt {false, f.X, f.Y}; }
template<class A, class B> void sw_convert(vf::Src &S) {
    World<A> w(S);
    Pt p = A::gen(S, w.c);
    auto e = A::rep(S, w.c, p, false);
    S.note(p, w.where());
    S.nontrivial(!p.inf && !e.Z.is_one());
    auto f = e.to_affine();
    CHECK(aff(f) == p, "to_affine of " << p << " gives " << aff(f) << w.where());
    auto g = e.to_projective();
    Pt b = g.is_zero() ? Pt {true, F(), F()} : Pt {false, g.X / g.Z, g.Y / g.Z};
    CHECK(b == p && g.is_zero() == p.inf, "to_projective of " << p << " gives " << b << w.where());
    auto h = f.to_projective();
    Pt b2 = h.is_zero() ? Pt {true, F(), F()} : Pt {false, h.X / h.Z, h.Y / h.Z};
    CHECK(b2 == p, "affine to projective of " << p << " gives " << b2 << w.where());
    CHECK(aff(h.to_affine()) == p, "affine -> projective -> affine of " << p << w.where());
}
PROP(convert_jacobian, 20000, 2000000, "finite point, not normalised") { sw_convert<A_jac, int>(S); }
PROP(convert_jacobian_a0, 20000, 2000000, "finite point, not normalised") { sw_convert<A_jac0, int>(S); }
PROP(convert_jacobian_am3, 20000, 2000000, "finite point, not normalised") { sw_convert<A_jac3, int>(S); }
template<class A, class Conv> void ed_convert(vf::Src &S, Conv conv) {
    World<A> w(S);
    Pt p = A::gen(S, w.c);
    Elem<FM::twisted_edwards, co::affine> f = p == w.c.zero() && S.flip() ? Elem<FM::twisted_edwards, co::affine>() : Elem<FM::twisted_edwards, co::affine>(p.x, p.y);
    S.note(p, w.where());
    S.nontrivial(p != w.c.zero());
    auto g = conv(f);
    CHECK(A::back(w.c, g) == p, "conversion of the affine point " << p << " gives " << A::back(w.c, g) << w.where());
    CHECK(g.is_zero() == (p == w.c.zero()), "conversion of " << p << " is the identity: " << g.is_zero() << w.where());
    auto h = g.to_affine();
    Pt b = h.is_zero() ? w.c.zero() : Pt {false, h.X, h.Y};
    CHECK(b == p && h == f, "the round trip of " << p << " gives " << b << w.where());
    auto e = A::rep(S, w.c, p, false);
    auto k = e.to_affine();
    CHECK(k == f, "to_affine of a representation of " << p << w.where());
}
PROP(convert_inverted, 20000, 2000000, "not the identity") { ed_convert<InvEd>(S, [](const Elem<FM::twisted_edwards, co::affine> &f) { return f.to_inverted(); }); }
PROP(convert_extended, 20000, 2000000, "not the identity") { ed_convert<ExtEd>(S, [](const Elem<FM::twisted_edwards, co::affine> &f) { return f.to_extended_with_a_minus_1(); }); }
// Montgomery <-> twisted Edwards (birational; see https://eprint.iacr.org/2008/013)
static Pt te_to_mont(Pt p, F s) {
    if (p.x.is_zero()) return p.y.is_one() ? Pt {true, F(), F()} : Pt {false, F(0), F(0)};
    F u = (F(1) + p.y) / (F(1) - p.y);
    return Pt {false, u, s * u / p.x};
}
PROP(convert_montgomery, 20000, 2000000, "neither the identity nor of order two") {
    toy_field(S);
    Ed c = gen_ed(S, 3);
    F r = S.u64(2) ? F(1) : nonzero(S);    // B may be rescaled by a square
    Mont m;
    m.A = F(2) * (c.a + c.d) / (c.a - c.d);
    m.B = F(4) / (c.a - c.d) / (r * r);
    ParamsBase::a = c.a; ParamsBase::d = c.d; ParamsBase::A = m.A.v; ParamsBase::B = m.B.v; ParamsBase::b = F(0);
    ParamsBase::zero_fill = {F(0), F(S.flip() ? 1 : 0)};
    typedef Elem<FM::twisted_edwards, co::affine> T;
    typedef Elem<FM::montgomery, co::affine> M;
    Pt p = gen_point(S, c), q = gen_related(S, c, p);
    S.note(p, " ", q, " over GF(", F::p, ") a=", c.a, " d=", c.d, " r=", r);
    S.nontrivial(!p.x.is_zero());
    auto mk = [&](Pt x) { return x == c.zero() ? T() : T(x.x, x.y); };
    M u = mk(p).to_montgomery();
    CHECK(u.is_well_formed() && u.is_zero() == (p == c.zero()), "the image of " << p << " on the Montgomery curve" << OVER);
    CHECK(u.is_zero() || (m.on(Pt {false, u.X, u.Y}) && u.X == te_to_mont(p, F(1)).x), "the image of " << p << " is (" << u.X << "," << u.Y << ")" << OVER);
    T back = u.to_twisted_edwards();
    CHECK(back == mk(p), "Edwards -> Montgomery -> Edwards of " << p << " gives (" << back.X << "," << back.Y << ")" << OVER);
    // homomorphism
    Pt sum = c.add(p, q);
    M v = mk(q).to_montgomery();
    M s1 = u + v, s2 = mk(sum).to_montgomery();
    CHECK(s1 == s2, "the image of " << p << " + " << q << " is not the sum of the images" << OVER);
    T t1 = s1.to_twisted_edwards();
    CHECK(t1 == mk(sum), "the image of the Montgomery sum" << OVER);
}
// equality decides equality of points
template<class A> void equality(vf::Src &S) {
    World<A> w(S);
    Pt p = A::gen(S, w.c), q = S.u64(3) ? gen_related(S, w.c, p) : p;
    if (!A::representable(w.c, q)) q = odd_part(w.c, q);
    auto e = A::rep(S, w.c, p, false), f = A::rep(S, w.c, q, false);
    S.note(p, " ", q, w.where());
    S.nontrivial(p == q || p.x == q.x || p.y == q.y);
    CHECK((e == f) == (p == q) && (f == e) == (p == q) && (e != f) == (p != q), "comparison of " << p << " and " << q << w.where());
}
#define EQRULE "equal points or points sharing a coordinate"
PROP(equal_sw_affine, 10000, 1000000, EQRULE) { equality<A_affine>(S); }
PROP(equal_sw_jacobian, 10000, 1000000, EQRULE) { equality<A_jac>(S); }
PROP(equal_sw_jacobian_a0, 10000, 1000000, EQRULE) { equality<A_jac0>(S); }
PROP(equal_sw_jacobian_am3, 10000, 1000000, EQRULE) { equality<A_jac3>(S); }
PROP(equal_sw_projective, 10000, 1000000, EQRULE) { equality<A_proj>(S); }
PROP(equal_sw_projective_am3, 10000, 1000000, EQRULE) { equality<A_proj3>(S); }
PROP(equal_te_affine, 10000, 1000000, EQRULE) { equality<AffEd>(S); }
PROP(equal_te_inverted, 10000, 1000000, EQRULE) { equality<InvEd>(S); }
PROP(equal_te_extended, 10000, 1000000, EQRULE) { equality<ExtEd>(S); }
PROP(equal_montgomery, 10000, 1000000, EQRULE) { equality<AffMont>(S); }
#endif

#ifdef TOY_SCALAR
// C16: multiples
template<class A> void multiple(vf::Src &S) {
    World<A> w(S);
    typedef typename A::E E;
    Pt p = A::gen(S, w.c);
    E e = A::rep(S, w.c, p, S.flip());
    bmp::cpp_int k;
    std::uint64_t ord = 0;
    if (F::p < 400) {    // the order of the point is in reach: scalars around its multiples
        Pt q = p;
        for (ord = 1; !A::is_affine_neutral(q, w.c); ++ord) { q = w.c.add(q, p); if (ord > 2000) break; }
    }
    switch (S.u64(5)) {
        case 0: k = S.u64(40); break;
        case 1: k = S.u64(~0ull); break;
        case 2: { k = 1; k <<= (unsigned) S.u64(200); std::int64_t dlt = S.range(-2, 2); k += dlt; if (k < 0) k = 0; break; }
        case 3: if (ord) { k = S.u64(1000); k *= ord; k += S.range(-3, 3); if (k < 0) k = 0; } else k = S.u64(1u << 20); break;
        case 4: for (int i = 0; i < 5; ++i) k = (k << 64) + S.u64(~0ull); break;
        default: k = S.u64(1u << 12); break;
    }
    // reference: left-to-right over the affine law, one addition at a time
    Pt want = w.c.zero();
    for (int i = k.is_zero() ? -1 : (int) bmp::msb(k); i >= 0; --i) {
        want = w.c.add(want, want);
        if (bmp::bit_test(k, i)) want = w.c.add(want, p);
    }
    S.note(k, " * ", p, " order ", ord, w.where());
    S.nontrivial(k > 2 && !A::is_affine_neutral(p, w.c));
    auto see = [&](const E &r, const char *how) {
        Pt got = A::back(w.c, r);
        CHECK(got == want, how << " " << k << " * " << p << " is " << want << ", got " << got << w.where());
    };
    see(cv::detail::scalar_mul(e, k), "scalar_mul");
    struct Scalar { bmp::cpp_int data; bool is_zero() const { return data == 0; } };
    E in_place = e;
    in_place *= Scalar {k};
    see(in_place, "*=");
    if (k <= ~0ull) { std::size_t n = (std::size_t) k; see(e * n, "point * size_t"); see(n * e, "size_t * point"); }
    see(e * k, "point * scalar");
    see(k * e, "scalar * point");
    Pt got = A::back(w.c, e);
    CHECK(got == p, "the base changed" << w.where());
    bmp::cpp_int q0 = k;
    Curve::scalar_field_type::modulus = q0;
    bool in = cv::detail::subgroup_check(e);
    CHECK(in == A::is_affine_neutral(want, w.c), "subgroup test with order " << k << " of " << p << " says " << in << w.where());
}
#define MRULE "scalar above 2 and base not the identity"
PROP(multiple_sw_affine, 6000, 600000, MRULE) { multiple<A_affine>(S); }
PROP(multiple_sw_jacobian, 6000, 600000, MRULE) { multiple<A_jac>(S); }
PROP(multiple_sw_jacobian_a0, 6000, 600000, MRULE) { multiple<A_jac0>(S); }
PROP(multiple_sw_jacobian_am3, 6000, 600000, MRULE) { multiple<A_jac3>(S); }
PROP(multiple_sw_projective, 6000, 600000, MRULE) { multiple<A_proj>(S); }
PROP(multiple_sw_projective_am3, 6000, 600000, MRULE) { multiple<A_proj3>(S); }
PROP(multiple_te_affine, 6000, 600000, MRULE) { multiple<AffEd>(S); }
PROP(multiple_te_inverted, 6000, 600000, MRULE) { multiple<InvEd>(S); }
PROP(multiple_te_extended, 6000, 600000, MRULE) { multiple<ExtEd>(S); }
PROP(multiple_montgomery, 6000, 600000, MRULE) { multiple<AffMont>(S); }
#endif
