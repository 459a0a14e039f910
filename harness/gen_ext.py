"""The extension fields of the library and the published polynomials that define them."""
# name -> header, type, levels [(degree, non-residue as python expression list)]
B = {"alt": ("alt_bn128/base_field", "alt_bn128_base_field<254>"), "b381": ("bls12/base_field", "bls12_base_field<381>"),
     "b377": ("bls12/base_field", "bls12_base_field<377>"), "mnt4": ("mnt4/base_field", "mnt4_base_field<298>"),
     "mnt6": ("mnt6/base_field", "mnt6_base_field<298>"), "edw": ("edwards/base_field", "edwards_base_field<183>"),
     "bn": ("bn128/base_field", "bn128_base_field<254>")}
POLY = {"alt": [(2, [-1]), (3, [9, 1]), (2, [0, 0, 1, 0, 0, 0])], "bn": [(2, [-1]), (3, [9, 1]), (2, [0, 0, 1, 0, 0, 0])],
        "b381": [(2, [-1]), (3, [1, 1]), (2, [0, 0, 1, 0, 0, 0])], "b377": [(2, [-5]), (3, [0, 1]), (2, [0, 0, 1, 0, 0, 0])],
        "mnt4": [(2, [17]), (2, [0, 1])], "mnt6": [(3, [5]), (2, [0, 1, 0])], "edw": [(3, [61]), (2, [0, 1, 0])]}
TOWER = {"alt": ["fp2", "fp6_3over2", "fp12_2over3over2"], "bn": ["fp2", "fp6_3over2", "fp12_2over3over2"],
         "b381": ["fp2", "fp6_3over2", "fp12_2over3over2"], "b377": ["fp2", "fp6_3over2", "fp12_2over3over2"],
         "mnt4": ["fp2", "fp4"], "mnt6": ["fp3", "fp6_2over3"], "edw": ["fp3", "fp6_2over3"]}
NAMES = {"alt": "alt_bn128_254", "bn": "bn128_254", "b381": "bls12_381", "b377": "bls12_377", "mnt4": "mnt4_298", "mnt6": "mnt6_298", "edw": "edwards_183"}
BASES = list(B)


def exts(bases=BASES, depths=(1, 2, 3)):
    for b in bases:
        for k in depths:
            if k <= len(TOWER[b]):
                yield b, k


def make(bases, inc, depths=(1, 2, 3), pre=""):
    out = [pre]
    hs = set()
    for b in bases:
        hs.add(B[b][0])
    out += ["#include <nil/crypto3/algebra/fields/%s.hpp>" % h for h in sorted(hs)]
    params = {"alt": "alt_bn128", "b381": "bls12", "b377": "bls12", "mnt4": "mnt4", "mnt6": "mnt6", "edw": "edwards", "bn": "bn128"}
    out += sorted(set("#include <nil/crypto3/algebra/fields/arithmetic_params/%s.hpp>" % params[b] for b in bases))
    out += sorted(set("#include <nil/crypto3/algebra/fields/%s.hpp>" % TOWER[b][k - 1] for b, k in exts(bases)))
    out.append('#include "tower.hpp"')
    out.append("using namespace nil::crypto3::algebra::fields;")
    for b, k in exts(bases, depths):
        n = "%s_%s" % (NAMES[b], TOWER[b][k - 1].split("_")[0] if TOWER[b][k - 1] != "fp6_2over3" else "fp6")
        lv = ", ".join("tw::Level{%d, {%s}}" % (d, ", ".join("tw::Z(%d)" % x for x in nr)) for d, nr in POLY[b][:k])
        out.append("struct X_%s { typedef %s<%s> F; typedef %s Base; enum { depth = %d, minus_one = %d };" % (n, TOWER[b][k - 1], B[b][1], B[b][1], k, POLY[b][0] == (2, [-1]))
                   + " static constexpr const char *name = \"%s\"; static const tw::Tower &T() { static tw::Tower t = make(); return t; }" % n
                   + " static tw::Tower make() { tw::Tower t{zn::from_num(Base::modulus), {%s}}; for (auto &l : t.lv) for (auto &c : l.nr) c = zn::mod(c, t.p); return t; } };" % lv)
        out.append("")
    out.append("#define EXT_LIST(R) " + " ".join("R(X_%s_%s)" % (NAMES[b], TOWER[b][k - 1].split("_")[0]) for b, k in exts(bases, depths)))
    out.append('#include "%s"' % inc)
    return "\n".join(out) + "\n"
