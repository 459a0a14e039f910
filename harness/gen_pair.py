"""The pairings: a curve, its two groups, the tower of the target field."""
import gen_curves
import gen_ext
P = {    # name: (groups, header, curve, base in gen_ext)
    "alt": ("alt_g1", "alt_g2", "alt_bn128", "alt_bn128<254>", "alt"),
    "bls381": ("bls381_g1", "bls381_g2", "bls12", "bls12<381>", "b381"),
    "mnt4": ("mnt4_g1", "mnt4_g2", "mnt4", "mnt4<298>", "mnt4"),
    "mnt6": ("mnt6_g1", "mnt6_g2", "mnt6", "mnt6<298>", "mnt6"),
    "edw": ("edw_g1", "edw_g2", "edwards", "edwards<183>", "edw"),
}
FULL = ["bls381", "mnt4", "mnt6", "edw"]    # the pairing of alt_bn128 does not compile, only its final exponentiation


def make(name, inc):
    g1, g2, hdr, typ, base = P[name]
    out = gen_curves.make([g1, g2], "real.hpp", only_default=True)
    pre = "#include <nil/crypto3/algebra/curves/%s.hpp>\n#include <nil/crypto3/algebra/pairing/%s.hpp>\n#include <nil/crypto3/algebra/algorithms/pair.hpp>\n" % (hdr, hdr)
    lv = ", ".join("tw::Level{%d, {%s}}" % (d, ", ".join("tw::Z(%d)" % x for x in nr)) for d, nr in gen_ext.POLY[base])
    if name == "alt":
        out += "#define PC_ALT\n"
    out += """
struct PC {
    typedef rc::cv::%s CurveT; typedef G_%s G1; typedef G_%s G2; static constexpr const char *name = "%s"; static constexpr int kind = %d;
    static const tw::Tower &T() { static tw::Tower t = make(); return t; }
    static tw::Tower make() { tw::Tower t{G1::C().T.p, {%s}}; for (auto &l : t.lv) for (auto &c : l.nr) c = zn::mod(c, t.p); return t; }
};
#include "%s"
""" % (typ, g1, g2, name, list(P).index(name), lv, inc)
    return pre + out
