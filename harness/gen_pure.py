"""C29: which operations go together in one process."""
import gen_curves
import gen_ext
import gen_fields
import gen_pair
CURVES = ["alt_g1+alt_g2", "bls377_g1+bls377_g2", "secp256k1+secp256r1+secp192k1", "pallas+vesta", "jubjub_te+jubjub_m", "ed25519+curve25519_m"]
PAIRS = ["bls381", "mnt4", "mnt6", "edw"]
BASES = [["b381"], ["b377", "bn"], ["alt", "mnt4"], ["mnt6", "edw"]]
FLD = ["secp_k1_256_base", "goldilocks64", "maxprime64", "pallas_base", "secp_r1_521_base", "curve25519_scalar", "bls12_381_scalar", "mnt4_298_scalar", "brainpool_r1_320_base"]


def head(n, q=1):
    return '#define PURE_NAME "%s"\n#define PURE_Q %d\n' % (n, q)


def units(san, rnd):
    u = []
    for c in CURVES:
        u.append(dict(name="C29_" + c.split("+")[0], src=lambda seed, thorough, c=c: head(c) + gen_curves.make(c.split("+"), "pure_grp.inc", params=True)))
    for p in PAIRS:
        u.append(dict(name="C29_pair_" + p, src=lambda seed, thorough, p=p: head(p) + pairing(p)))
    for b in BASES:
        u.append(dict(name="C29_ext_" + b[0], libs=rnd, src=lambda seed, thorough, b=b: head("+".join(b)) + gen_ext.make(b, "pure_ext.inc")))
    u.append(dict(name="C29_fields", libs=rnd, src=lambda seed, thorough: head("fields") + fields()))
    u.append(dict(name="C29_la", src=lambda seed, thorough: head("la") + '#include "pure_la.inc"\n'))
    return [dict(x, flags=["-O1"], san=san) for x in u]


def pairing(p):
    s = gen_pair.make(p, "pure_pair.inc")
    g1, g2 = gen_pair.P[p][:2]
    pre = "".join("#include <nil/crypto3/algebra/curves/params/%s/%s.hpp>\n" % (k, gen_pair.P[p][2]) for k in ("wnaf", "multiexp"))
    if p != "edw":
        pre += "#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>\n#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>\n"
    i = s.index('#include "real.hpp"') if '#include "real.hpp"' in s else 0
    return ("#define PURE_BLS\n" if p == "bls381" else "") + s[:i] + pre + s[i:]


def fields():
    fs = [f for f in gen_fields.FIELDS if f[0] in FLD]
    out = ["#include <nil/crypto3/algebra/fields/%s.hpp>" % h for h in sorted(set(h for _, h, _ in fs))]
    out += ['#include "tower.hpp"', "using namespace nil::crypto3::algebra::fields;"]
    for n, _, t in fs:
        out.append("struct X_%s { typedef %s F; typedef F Base; enum { depth = 0 }; static constexpr const char *name = \"%s\"; static const tw::Tower &T() { static tw::Tower t{zn::from_num(F::modulus), {}}; return t; } };" % (n, t, n))
    out.append("#define EXT_LIST(R) " + " ".join("R(X_%s)" % n for n, _, _ in fs))
    out.append('#include "pure_ext.inc"')
    return "\n".join(out) + "\n"
