"""The prime fields of the library: header below fields/, type, group of translation units."""
import os
# name -> (header, type, number of TU group)
FIELDS = [
    ("alt_bn128_254_base", "alt_bn128/base_field", "alt_bn128_base_field<254>"),
    ("alt_bn128_254_scalar", "alt_bn128/scalar_field", "alt_bn128_scalar_field<254>"),
    ("bls12_381_base", "bls12/base_field", "bls12_base_field<381>"),
    ("bls12_381_scalar", "bls12/scalar_field", "bls12_scalar_field<381>"),
    ("bls12_377_base", "bls12/base_field", "bls12_base_field<377>"),
    ("bls12_377_scalar", "bls12/scalar_field", "bls12_scalar_field<377>"),
    ("mnt4_298_base", "mnt4/base_field", "mnt4_base_field<298>"),
    ("mnt4_298_scalar", "mnt4/scalar_field", "mnt4_scalar_field<298>"),
    ("mnt6_298_base", "mnt6/base_field", "mnt6_base_field<298>"),
    ("mnt6_298_scalar", "mnt6/scalar_field", "mnt6_scalar_field<298>"),
    ("edwards_183_base", "edwards/base_field", "edwards_base_field<183>"),
    ("edwards_183_scalar", "edwards/scalar_field", "edwards_scalar_field<183>"),
    ("bn128_254_base", "bn128/base_field", "bn128_base_field<254>"),
    ("bn128_254_scalar", "bn128/scalar_field", "bn128_scalar_field<254>"),
    ("jubjub_base", "jubjub/base_field", "jubjub_base_field"),
    ("jubjub_scalar", "jubjub/scalar_field", "jubjub_scalar_field"),
    ("babyjubjub_base", "babyjubjub/base_field", "babyjubjub_base_field"),
    ("babyjubjub_scalar", "babyjubjub/scalar_field", "babyjubjub_scalar_field"),
    ("curve25519_base", "curve25519/base_field", "curve25519_base_field"),
    ("curve25519_scalar", "curve25519/scalar_field", "curve25519_scalar_field"),
    ("pallas_base", "pallas/base_field", "pallas_base_field"),
    ("pallas_scalar", "pallas/scalar_field", "pallas_scalar_field"),
    ("vesta_base", "vesta/base_field", "vesta_base_field"),
    ("vesta_scalar", "vesta/scalar_field", "vesta_scalar_field"),
    ("goldilocks64", "goldilocks64/base_field", "goldilocks64"),
    ("maxprime64", "maxprime", "maxprime<64>"),
]
for v in (160, 192, 224, 256):
    FIELDS += [("secp_k1_%d_base" % v, "secp/secp_k1/base_field", "secp_k1_base_field<%d>" % v),
               ("secp_k1_%d_scalar" % v, "secp/secp_k1/scalar_field", "secp_k1_scalar_field<%d>" % v)]
for v in (160, 192, 224, 256, 384, 521):
    FIELDS += [("secp_r1_%d_base" % v, "secp/secp_r1/base_field", "secp_r1_base_field<%d>" % v),
               ("secp_r1_%d_scalar" % v, "secp/secp_r1/scalar_field", "secp_r1_scalar_field<%d>" % v)]
for v in (160, 192, 224, 256, 320, 384, 512):
    FIELDS += [("brainpool_r1_%d_base" % v, "brainpool_r1/base_field", "brainpool_r1_base_field<%d>" % v),
               ("brainpool_r1_%d_scalar" % v, "brainpool_r1/scalar_field", "brainpool_r1_scalar_field<%d>" % v)]
for n in ("frp_v1", "gost_A", "sm2p_v1"):
    FIELDS += [(n + "_256_base", n + "/base_field", n + "_base_field<256>"),
               (n + "_256_scalar", n + "/scalar_field", n + "_scalar_field<256>")]
for n, v in ((1, 239), (2, 192), (2, 239), (3, 192), (3, 239)):
    FIELDS += [("x962_p_v%d_%d_base" % (n, v), "x962_p/base_field", "x962_p_v%d_base_field<%d>" % (n, v)),
               ("x962_p_v%d_%d_scalar" % (n, v), "x962_p/scalar_field", "x962_p_v%d_scalar_field<%d>" % (n, v))]
FIELDS += [("sect_k1_163_scalar", "sect/sect_k1/scalar_field", "sect_k1_scalar_field<163>")]
FIELDS += [("dsa_jce_1024", "dsa_jce", "dsa_jce<1024>"), ("dsa_botan_2048", "dsa_botan", "dsa_botan<2048>"),
           ("dsa_botan_3072", "dsa_botan", "dsa_botan<3072>")]
BIG = []
for v in (2048, 3072, 4096, 6144, 8192):
    BIG.append(("ffdhe_%d" % v, "ffdhe_ietf", "ffdhe_ietf<%d>" % v))
for n in ("modp_ietf", "modp_srp"):
    for v in (1024, 1536, 2048, 3072, 4096, 6144, 8192):
        BIG.append(("%s_%d" % (n, v), n, "%s<%d>" % (n, v)))

PRIME = FIELDS


def make(fields, inc):
    hs = sorted(set(h for _, h, _ in fields))
    out = ["#include <nil/crypto3/algebra/fields/%s.hpp>" % h for h in hs]
    out.append("#define FIELD_LIST(R) " + " ".join("R(%s, %s)" % (n, t) for n, _, t in fields))
    out.append('#include "%s"' % inc)
    return "\n".join(out) + "\n"


def groups(fields, k):
    return [fields[i::k] for i in range(k)]
