"""The curves given as plain constant tables (no element classes)."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
FRP = dict(a="F1FD178C0B3AD58F10126DE8CE42435B3961ADBCABC8CA6DE8FCF353D86E9C00", b="EE353FCA5428A9300D4ABA754A44C00FDFEC0C9AE4B1A1803075ED967B7BB73F",
           x="B6B3D4C356C139EB31183D4749D423958C27D2DCAF98B70164C97A2DD98F5CFF", y="6142E0F7C8B204911F9271F0F3ECEF8C2701C307E8E4C9E183115A1554062CFB",
           n="F1FD178C0B3AD58F10126DE8CE42435B53DC67E140D2BF941FFDD459C6D655E1", p="F1FD178C0B3AD58F10126DE8CE42435B3961ADBCABC8CA6DE8FCF353D86E9C03")


def src(seed, thorough):
    d = json.load(open(os.path.join(HERE, "published.json")))
    sm2 = {k: v[2:] for k, v in d["curves"]["sm2p_v1"].items()}
    sm2["p"] = "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"
    o = ["#include <nil/crypto3/algebra/curves/frp_v1.hpp>", "#include <nil/crypto3/algebra/curves/sm2p_v1.hpp>", '#include "real.hpp"']
    for n, v in (("frp_v1", FRP), ("sm2p_v1", sm2)):
        o.append("struct S_%s { typedef rc::cv::%s<256> C; static constexpr const char *name = \"%s\"; static const char *std_(const char *k) { switch (*k) { %s } return \"0\"; } };"
                 % (n, n, n, " ".join("case '%s': return \"%s\";" % (k, v[k]) for k in "pabxyn")))
    o.append(r"""
template<class Q> void plain(vf::Src &S) {
    typedef typename Q::C C;
    auto z = [](const char *k) { return rc::Z(Q::std_(k), 16); };
    rc::Curve c;
    c.T = tw::Tower {zn::from_num(C::p), {}};
    c.kind = rc::SW;
    c.a = {zn::mod(zn::from_num(C::a), c.T.p)};
    c.b = {zn::mod(zn::from_num(C::b), c.T.p)};
    c.r = zn::from_num(C::q);
    c.h = 1;
    rc::Pt g {false, {zn::from_num(C::x)}, {zn::from_num(C::y)}};
    CHECK(c.T.p == z("p") && c.r == z("n") && c.a[0] == z("a") && c.b[0] == z("b") && g.x[0] == z("x") && g.y[0] == z("y"), "a constant of " << Q::name << " is not the published one");
    CHECK(zn::from_num(C::base_field_modulus) == c.T.p && zn::from_num(C::scalar_field_modulus) == c.r && zn::from_num(C::base_field_type::modulus) == c.T.p && zn::from_num(C::scalar_field_type::modulus) == c.r, "moduli of " << Q::name);
    CHECK(C::base_field_bits == zn::bits(c.T.p) && C::scalar_field_bits == zn::bits(c.r), "bit lengths of " << Q::name);
    static bool ok = zn::prime(c.T.p) && zn::prime(c.r);
    CHECK(ok && c.on(g) && c.mul(c.r, g) == c.zero(), "the generator of " << Q::name << " is not on the curve with the stated order");
    rc::Z d = c.r - c.T.p - 1;
    CHECK(d * d <= 4 * c.T.p, "the order of " << Q::name << " is outside the Hasse interval");
    rc::Pt p = c.from({zn::draw_mod(S, c.T.p)}, S.flip());
    S.note(Q::name, " ", p);
    S.nontrivial(true);
    CHECK(c.mul(c.r, p) == c.zero(), "the order does not annihilate " << p << " on " << Q::name);
}
PROP(plain_frp_v1, 40, 2000, "an arbitrary point of the curve") { plain<S_frp_v1>(S); }
PROP(plain_sm2p_v1, 40, 2000, "an arbitrary point of the curve") { plain<S_sm2p_v1>(S); }
""")
    return "\n".join(o)
