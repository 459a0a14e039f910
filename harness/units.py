"""Which translation units decide which property."""
ASAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
import gen_c05
import gen_c25
import gen_fields as gf
import gen_hdr
import gen_ext as ge
import gen_c07
import gen_c14
import gen_curves
import gen_pair
import gen_enc
import gen_m2c
import gen_pure
import gen_rnd
import gen_txt
GROUP_UNITS = ["mnt6_g2", "alt_g2", "bls381_g2", "bls377_g2", "mnt4_g2", "secp224k1+secp256k1", "secp160k1+secp192k1", "secp224r1+secp256r1", "secp160r1+secp192r1",
               "secp521r1", "secp384r1", "bls381_g1", "bls377_g1", "alt_g1", "mnt4_g1", "mnt6_g1", "edw_g2", "edw_g1", "pallas", "vesta",
               "jubjub_te+jubjub_m", "babyjubjub_te+babyjubjub_m", "ed25519+curve25519_m"]


def groups(prop, inc, names=None, **kw):
    def one(u):
        return dict(name="%s_%s" % (prop, u.replace("+", "_")), src=lambda seed, thorough: gen_curves.make(u.split("+"), inc, **kw))
    return [one(u) for u in names or GROUP_UNITS]


RND = ["-lboost_random", "-lgmpxx", "-lgmp"]
UNITS = {
    "C07": [dict(name="C07_p%d" % k, flags=["-O0"], src=lambda seed, thorough, k=k: gen_c07.primes(k, 5)) for k in range(5)]
           + [dict(name="C07_" + b, src=lambda seed, thorough, b=b: gen_c07.exts([b])) for b in ge.BASES],
    "C09": [dict(name="C09_" + b, src=lambda seed, thorough, b=b: ge.make([b], "ext_c09.inc")) for b in ge.BASES],
    "C11": [dict(name="C11_" + b, src=lambda seed, thorough, b=b: ge.make([b], "ext_c11.inc")) for b in ge.BASES],
    "C10": [dict(name="C10_" + b, src=lambda seed, thorough, b=b: ge.make([b], "ext_c10.inc", (1,))) for b in ge.BASES]
           + [dict(name="C10_p%d" % k, src=lambda seed, thorough, k=k: gf.make(gf.groups(gf.PRIME + gf.BIG, 9)[k], "fp_c10.inc")) for k in range(9)],
    "C08": [dict(name="C08_" + b, src=lambda seed, thorough, b=b: ge.make([b], "ext_c08.inc")) for b in ge.BASES],
    "C06": [dict(name="C06_g%d" % k, src=lambda seed, thorough, k=k: gf.make(gf.groups(gf.PRIME, 12)[k], "fp_c06.inc"), libs=["-lgmpxx", "-lgmp"]) for k in range(12)]
           + [dict(name="C06_big%d" % k, src=lambda seed, thorough, k=k: gf.make(gf.groups(gf.BIG, 6)[k], "fp_c06.inc"), libs=["-lgmpxx", "-lgmp"]) for k in range(6)],
    "C05": [dict(name="C05_gen%d" % k, flags=["-O%d" % (k % 2 * 2), "-ffp-contract=off", "-ferror-limit=5"], const_eval=True,
                 src=lambda seed, thorough, k=k: gen_c05.make(seed, 2500 if thorough else 600, k)) for k in range(8)],
    "C26": [dict(name="C26_helpers", src="c26.cpp", san=ASAN)],
    "C25": [dict(name="C25_gen%d" % k, flags=["-O0"],
                 src=lambda seed, thorough, k=k: gen_c25.make(seed, 6000 if thorough else 800, k, 6, thorough) + '#include "c25_main.inc"\n') for k in range(6)]
           + [dict(name="C25_lib", src="c25_lib.cpp", flags=["-O0"])],
    "C01": [
        dict(name="C01_int", src="la_vector.cpp", flags=["-DLA_TYPES=int", "-DLA_FIRST"], san=ASAN),
        dict(name="C01_u", src="la_vector.cpp", flags=["-DLA_TYPES=unsigned,long long"], san=ASAN),
        dict(name="C01_fl", src="la_vector.cpp", flags=["-DLA_TYPES=double,float"], san=ASAN),
        dict(name="C01_cx", src="la_vector.cpp", flags=["-DLA_TYPES=std::complex<double>,std::complex<float>"], san=ASAN),
        dict(name="C01_user", src="la_vector.cpp", flags=["-DLA_TYPES=F97,NC"], san=ASAN),
    ],
    "C02": [
        dict(name="C02_" + n, src="la_matrix.cpp", flags=["-DLA_TYPES=" + t], san=ASAN) for n, t in
        [("int", "int"), ("ll", "long long"), ("u", "unsigned"), ("dbl", "double"), ("flt", "float"),
         ("cx", "std::complex<double>"), ("f97", "F97"), ("nc", "NC")]
    ],
    "C03": [
        dict(name="C03_exact", src="la_elim.cpp", flags=["-DELIM_EXACT"]),
        dict(name="C03_float", src="la_elim.cpp"),
        dict(name="C03_exact_san", src="la_elim.cpp", flags=["-DELIM_EXACT"], san=ASAN),
    ],
    "C12": [
        dict(name="C12_formulas", src="formulas.cpp", flags=["-O2"], extra=["toy.cpp"]),
        dict(name="C12_history", src="group_toy.cpp", flags=["-DTOY_HISTORY"], extra=["toy.cpp"]),
    ],
    "C13": groups("C13", "grp_c13.inc"),
    "C14": groups("C14", "grp_c14.inc") + [dict(name="C14_plain", src=gen_c14.src)],
    "C15": [dict(name="C15_toy", src="group_toy.cpp", flags=["-DTOY_CONVERT"], extra=["toy.cpp"])] + groups("C15", "grp_c15.inc"),
    "C16": [dict(name="C16_toy", src="group_toy.cpp", flags=["-DTOY_SCALAR"], extra=["toy.cpp"])] + groups("C16", "grp_c16.inc"),
    "C17": [dict(name="C17_plain", src="multi_plain.cpp", flags=["-DPLAIN17"])] + groups("C17", "grp_c17.inc", params=True),
    "C18": [dict(name="C18_plain", src="multi_plain.cpp", flags=["-DPLAIN18"])] + groups("C18", "grp_c18.inc", params=True),
    "C19": [dict(name="C19_" + n, src=lambda seed, thorough, n=n: gen_pair.make(n, "pair_c19.inc")) for n in gen_pair.FULL],
    "C20": [dict(name="C20_" + n, src=lambda seed, thorough, n=n: gen_pair.make(n, "pair_c20.inc")) for n in gen_pair.FULL + ["alt"]],
    "C21": [dict(name="C21_bls12_381", src=lambda seed, thorough: gen_enc.make(21))],
    "C22": [dict(name="C22_bls12_381", src=lambda seed, thorough: gen_enc.make(22))],
    "C23": [dict(name="C23_bls12_381", src=lambda seed, thorough: gen_m2c.make())],
    "C24": [dict(name="C24_toy", src="rnd_toy.cpp", libs=RND)]
           + [dict(name="C24_f%d" % k, libs=RND, src=lambda seed, thorough, k=k: gen_rnd.fields(k, 4)) for k in range(4)]
           + [dict(name="C24_x%d" % k, libs=RND, src=lambda seed, thorough, k=k: gen_rnd.extensions(ge.BASES[k::2])) for k in range(2)]
           + [dict(u, libs=RND) for u in groups("C24", "grp_c24.inc", only_default=True, names=["mnt6_g2", "alt_g1", "bls381_g1", "bls381_g2", "secp160k1+secp192k1", "secp521r1", "edw_g1", "pallas", "jubjub_te+jubjub_m", "ed25519+curve25519_m"])],
    "C27": [dict(name="C27_f%d" % k, src=lambda seed, thorough, k=k: gen_enc.fields(k, 4)) for k in range(4)]
           + [dict(name="C27_x%d" % k, src=lambda seed, thorough, k=k: gen_enc.extensions(ge.BASES[k::2], k == 0)) for k in range(2)],
    "C28": [dict(name="C28_f%d" % k, src=lambda seed, thorough, k=k: gen_txt.fields(k, 4)) for k in range(4)]
           + [dict(name="C28_x%d" % k, src=lambda seed, thorough, k=k: gen_txt.extensions(ge.BASES[k::2])) for k in range(2)]
           + groups("C28", "txt_grp.inc", names=["bls381_g1+bls381_g2", "mnt4_g1+mnt4_g2", "mnt6_g1+mnt6_g2", "secp256k1+secp256r1", "edw_g1+edw_g2", "pallas", "jubjub_te+jubjub_m", "ed25519+curve25519_m"])
           + [dict(name="C28_pair_" + n, src=lambda seed, thorough, n=n: gen_pair.make(n, "pair_c28.inc")) for n in ("bls381", "mnt4", "mnt6")],
    "C30": [dict(name="C30", src=lambda seed, thorough: gen_hdr.make(), flags=["-O1"])],
    "C29": gen_pure.units(["-fsanitize=thread"], RND),
    "C04": [dict(name="C04_scalar", src="scalar.cpp", flags=["-O2"])],
}
# the build option STANDARD_EC_INF_POINTS: the point at infinity is (0, 1)
for _p in ("C13", "C15", "C16", "C18", "C19", "C20", "C21", "C22"):
    for _u in list(UNITS[_p]):
        if "_toy" in _u["name"] or "_plain" in _u["name"] or "bls12_381" in _u["name"] and _p in ("C19", "C20"):
            continue
        _q = _p in ("C13", "C15") and ("377_g1" in _u["name"] or "mnt4_g1" in _u["name"]) or _p == "C19" and "edw" in _u["name"]
        UNITS[_p].append(dict(_u, name=_u["name"] + "_std", flags=_u.get("flags", []) + ["-DSTANDARD_EC_INF_POINTS_ENABLED"], thorough_only=not _q))
ASSUMPTIONS = {"*": ["clang 18 on x86-64; sanitizers and the C++ runtime are trusted",
                     "random generation explores a sample of the input space, not all of it"]}
