"""The curve groups of the library, with the standard equations, orders and generators they claim to have."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
M = {k: int(v, 16) for k, v in json.load(open(os.path.join(HERE, "published.json")))["modulus"].items()}
ALLSW = ["affine", "projective", "jacobian"]
SW0 = ALLSW + ["jacobian_with_a4_0"]
SW3 = ALLSW + ["jacobian_with_a4_minus_3", "projective_with_a4_minus_3"]


def G(curve, header, typ, which, form, field, levels, a, b, r, h, coords, gen=None, two=0, default=None):
    return dict(curve=curve, header=header, typ=typ, which=which, form=form, field=field, levels=levels, a=a, b=b, r=r, h=h, coords=coords, gen=gen, two=two, default=default)


def inv2(a, nr, p):    # inverse of a0 + a1 u, u^2 = nr
    n = pow(a[0] * a[0] - nr * a[1] * a[1], -1, p)
    return [a[0] * n % p, -a[1] * n % p]


C = {}
# BLS12-381
p, r = M["bls12_381_base"], M["bls12_381_scalar"]
x = -0xd201000000010000
h2 = lambda x: (x**8 - 4 * x**7 + 5 * x**6 - 4 * x**4 + 6 * x**3 - 4 * x**2 - 4 * x + 13) // 9
C["bls381_g1"] = G("bls381", "bls12", "bls12<381>", "g1", "short_weierstrass", "bls12_381_base", [], [0], [4], r, (x - 1)**2 // 3, SW0, gen=(
    [0x17F1D3A73197D7942695638C4FA9AC0FC3688C4F9774B905A14E3A3F171BAC586C55E83FF97A1AEFFB3AF00ADB22C6BB],
    [0x08B3F481E3AAA0F1A09E30ED741D8AE4FCF5E095D5D00AF600DB18CB2C04B3EDD03CC744A2888AE40CAA232946C5E7E1]), default="jacobian_with_a4_0")
C["bls381_g2"] = G("bls381", "bls12", "bls12<381>", "g2", "short_weierstrass", "bls12_381_base", [(2, [-1])], [0], [4, 4], r, h2(x), SW0, gen=(
    [0x024AA2B2F08F0A91260805272DC51051C6E47AD4FA403B02B4510B647AE3D1770BAC0326A805BBEFD48056C8C121BDB8,
     0x13E02B6052719F607DACD3A088274F65596BD0D09920B61AB5DA61BBDC7F5049334CF11213945D57E5AC7D055D042B7E],
    [0x0CE5D527727D6E118CC9CDC6DA2E351AADFD9BAA8CBDD3A76D429A695160D12C923AC9CC3BACA289E193548608B82801,
     0x0606C4A02EA734CC32ACD2B02BC28B99CB3E287E85A763AF267492AB572E99AB3F370D275CEC1DA1AAA9075FF05F79BE]), default="jacobian_with_a4_0")
# BLS12-377
p, r = M["bls12_377_base"], M["bls12_377_scalar"]
x = 0x8508c00000000001
C["bls377_g1"] = G("bls377", "bls12", "bls12<377>", "g1", "short_weierstrass", "bls12_377_base", [], [0], [1], r, (x - 1)**2 // 3, SW0, gen=(
    [81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695],
    [241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030]), default="jacobian_with_a4_0")
C["bls377_g2"] = G("bls377", "bls12", "bls12<377>", "g2", "short_weierstrass", "bls12_377_base", [(2, [-5])], [0], inv2([0, 1], -5, p), r, h2(x), SW0, default="jacobian_with_a4_0")
# (several generators of the second group are in use; only curve and order are asked of it)
# alt_bn128
p, r = M["alt_bn128_254_base"], M["alt_bn128_254_scalar"]
b2 = [3 * v % p for v in inv2([9, 1], -1, p)]
C["alt_g1"] = G("alt", "alt_bn128", "alt_bn128<254>", "g1", "short_weierstrass", "alt_bn128_254_base", [], [0], [3], r, 1, SW0, gen=([1], [2]), default="jacobian_with_a4_0")
C["alt_g2"] = G("alt", "alt_bn128", "alt_bn128<254>", "g2", "short_weierstrass", "alt_bn128_254_base", [(2, [-1])], [0], b2, r, 2 * p - r, SW0, gen=(
    [10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634],
    [8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531]),
    default="jacobian_with_a4_0")
# MNT4-298, MNT6-298
p, r = M["mnt4_298_base"], M["mnt4_298_scalar"]
b = 423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685
t = p + 1 - r
C["mnt4_g1"] = G("mnt4", "mnt4", "mnt4<298>", "g1", "short_weierstrass", "mnt4_298_base", [], [2], [b], r, 1, ALLSW, gen=(
    [60760244141852568949126569781626075788424196370144486719385562369396875346601926534016838],
    [363732850702582978263902770815145784459747722357071843971107674179038674942891694705904306]), default="projective")
n2 = p * p + 1 + (t * t - 2 * p)
assert n2 % r == 0
C["mnt4_g2"] = G("mnt4", "mnt4", "mnt4<298>", "g2", "short_weierstrass", "mnt4_298_base", [(2, [17])], [34], [0, b * 17 % p], r, n2 // r, ALLSW, gen=(
    [438374926219350099854919100077809681842783509163790991847867546339851681564223481322252708, 37620953615500480110935514360923278605464476459712393277679280819942849043649216370485641],
    [37437409008528968268352521034936931842973546441370663118543015118291998305624025037512482, 424621479598893882672393190337420680597584695892317197646113820787463109735345923009077489]), default="projective")
p, r = M["mnt6_298_base"], M["mnt6_298_scalar"]
b = 106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074
t = p + 1 - r
C["mnt6_g1"] = G("mnt6", "mnt6", "mnt6<298>", "g1", "short_weierstrass", "mnt6_298_base", [], [11], [b], r, 1, ALLSW, gen=(
    [336685752883082228109289846353937104185698209371404178342968838739115829740084426881123453],
    [402596290139780989709332707716568920777622032073762749862342374583908837063963736098549800]), default="projective")
n2 = p**3 + 1 + (t**3 - 3 * p * t)
assert n2 % r == 0
C["mnt6_g2"] = G("mnt6", "mnt6", "mnt6<298>", "g2", "short_weierstrass", "mnt6_298_base", [(3, [5])], [0, 0, 11], [5 * b % p], r, n2 // r, ALLSW, gen=(
    [421456435772811846256826561593908322288509115489119907560382401870203318738334702321297427, 103072927438548502463527009961344915021167584706439945404959058962657261178393635706405114,
     143029172143731852627002926324735183809768363301149009204849580478324784395590388826052558],
    [464673596668689463130099227575639512541218133445388869383893594087634649237515554342751377, 100642907501977375184575075967118071807821117960152743335603284583254620685343989304941678,
     123019855502969896026940545715841181300275180157288044663051565390506010149881373807142903]), default="projective")
# Edwards-183
p, r = M["edwards_183_base"], M["edwards_183_scalar"]
d = 600581931845324488256649384912508268813600056237543024
C["edw_g1"] = G("edw", "edwards", "edwards<183>", "g1", "twisted_edwards", "edwards_183_base", [], [1], [d], r, 4, ["inverted", "affine"], two=2, gen=(
    [3713709671941291996998665608188072510389821008693530490], [4869953702976555123067178261685365085639705297852816679]), default="inverted")
t = p + 1 - 4 * r
n2 = p**3 + 1 + (t**3 - 3 * p * t)
assert n2 % r == 0
C["edw_g2"] = G("edw", "edwards", "edwards<183>", "g2", "edw2", "edwards_183_base", [(3, [61])], [0, 1], [0, d], r, n2 // r, ["inverted"], two=4, default="inverted")
# secp
for n, v in [("k1", 160), ("k1", 192), ("k1", 224), ("k1", 256), ("r1", 160), ("r1", 192), ("r1", 224), ("r1", 256), ("r1", 384), ("r1", 521)]:
    d = json.load(open(os.path.join(HERE, "published.json")))["curves"]["secp_%s_%d" % (n, v)]
    C["secp%d%s" % (v, n)] = G("secp%d%s" % (v, n), "secp_" + n, "secp_%s<%d>" % (n, v), "g1", "short_weierstrass", "secp_%s_%d_base" % (n, v), [],
                               [int(d["a"], 16)], [int(d["b"], 16)], int(d["n"], 16), 1, SW0 if n == "k1" else SW3, gen=([int(d["x"], 16)], [int(d["y"], 16)]),
                               default="jacobian_with_a4_0" if n == "k1" else "projective")
for n, o in (("pallas", "vesta"), ("vesta", "pallas")):
    C[n] = G(n, n, n, "g1", "short_weierstrass", n + "_base", [], [0], [5], M[o + "_base"], 1, SW0, gen=([M[n + "_base"] - 1], [2]), default="jacobian_with_a4_0")
# twisted Edwards and Montgomery
p = M["jubjub_base"]
C["jubjub_te"] = G("jubjub", "jubjub", "jubjub", "g1", "twisted_edwards", "bls12_381_scalar", [], [p - 1], [-10240 * pow(10241, -1, p) % p], M["jubjub_scalar"], 8,
                   ["affine"], gen=([0x11dafe5d23e1218086a365b99fbf3d3be72f6afd7d1f72623e6b071492d1122b], [0x1d523cf1ddab1a1793132e78c866c0c33e26ba5cc220fed7cc3f870e59d292aa]), default="affine")
C["jubjub_m"] = G("jubjub", "jubjub", "jubjub", "g1", "montgomery", "bls12_381_scalar", [], [40962], [1], M["jubjub_scalar"], 8, ["affine"])
p = M["babyjubjub_base"]
C["babyjubjub_te"] = G("babyjubjub", "babyjubjub", "babyjubjub", "g1", "twisted_edwards", "alt_bn128_254_scalar", [], [168700], [168696], M["babyjubjub_scalar"], 8, ["affine"],
                       gen=([5299619240641551281634865583518297030282874472190772894086521144482721001553], [16950150798460657717958625567821834550301663161624707787222815936182638968203]), default="affine")
C["babyjubjub_m"] = G("babyjubjub", "babyjubjub", "babyjubjub", "g1", "montgomery", "alt_bn128_254_scalar", [], [168698], [1], M["babyjubjub_scalar"], 8, ["affine"])
p = M["curve25519_base"]
C["ed25519"] = G("ed25519", "ed25519", "ed25519", "g1", "twisted_edwards", "curve25519_base", [], [p - 1], [-121665 * pow(121666, -1, p) % p], M["curve25519_scalar"], 8,
                 ["extended_with_a_minus_1", "affine"], gen=([15112221349535400772501151409588531511454012693041857206046113283949847762202], [4 * pow(5, -1, p) % p]), default="extended_with_a_minus_1")
C["curve25519_m"] = G("curve25519", "curve25519", "curve25519", "g1", "montgomery", "curve25519_base", [], [486662], [1], M["curve25519_scalar"], 8, ["affine"],
                      gen=([9], [14781619447589544791020593568409986887264606134616475288964881837755586237401]))
FIELD = {"bls12_381_base": ("bls12/base_field", "bls12_base_field<381>"), "bls12_377_base": ("bls12/base_field", "bls12_base_field<377>"),
         "bls12_381_scalar": ("bls12/scalar_field", "bls12_scalar_field<381>"), "alt_bn128_254_scalar": ("alt_bn128/scalar_field", "alt_bn128_scalar_field<254>"),
         "alt_bn128_254_base": ("alt_bn128/base_field", "alt_bn128_base_field<254>"), "mnt4_298_base": ("mnt4/base_field", "mnt4_base_field<298>"),
         "mnt6_298_base": ("mnt6/base_field", "mnt6_base_field<298>"), "edwards_183_base": ("edwards/base_field", "edwards_base_field<183>"),
         "pallas_base": ("pallas/base_field", "pallas_base_field"), "vesta_base": ("vesta/base_field", "vesta_base_field"), "curve25519_base": ("curve25519/base_field", "curve25519_base_field")}
COORD = {("short_weierstrass", "affine"): "short_weierstrass/element_g1_affine", ("twisted_edwards", "affine"): "twisted_edwards/element_g1_affine",
         ("montgomery", "affine"): "montgomery/element_g1_affine"}


def make(names, inc, only_default=False, extra=(), params=False):
    hs = set(extra)
    par = [C[n]["header"] for n in names if os.path.exists(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "include/nil/crypto3/algebra/curves/params/wnaf/%s.hpp" % C[n]["header"]))]
    if params:
        hs.update("curves/params/%s/%s.hpp" % (k, h) for h in par for k in ("wnaf", "multiexp"))
    out = ['#include "real.hpp"']
    lst = []
    for n in names:
        g = C[n]
        hs.add("curves/%s.hpp" % g["header"])
        form = "twisted_edwards" if g["form"] == "edw2" else g["form"]
        coords = g["coords"] if not only_default else ([g["default"]] if g["default"] else g["coords"])
        for c in coords:
            if g["form"] != "edw2":
                hs.add("curves/detail/forms/%s.hpp" % COORD.get((form, c), "%s/%s/element_g1" % (form, c)))
        p = M[g["field"]]
        k = {"short_weierstrass": "rc::SW", "twisted_edwards": "rc::TE", "montgomery": "rc::MONT"}[form]
        hx = lambda v: "rc::hexv({%s}, c.T)" % ", ".join('"%x"' % (e % p) for e in v)
        lv = ", ".join("tw::Level{%d, {%s}}" % (d, ", ".join('rc::Z("%x", 16)' % (e % p) for e in nr)) for d, nr in g["levels"])
        out.append("""struct G_%s {
    typedef rc::cv::forms::%s Form; typedef rc::cv::%s CurveT;
    template<class Co> using group = typename CurveT::template %s_type<Co, Form>;
    typedef typename group<rc::co::%s>::field_type::value_type FE; typedef rc::co::%s Default;
    static constexpr const char *name = "%s"; static constexpr bool second = %d, edw2 = %d, has_default = %d, has_gen = %d;
    static const rc::Curve &C() { static rc::Curve c = make(); return c; }
    static rc::Curve make() { rc::Curve c; c.T = tw::Tower{rc::Z("%x", 16), {%s}}; c.kind = %s; c.a = %s; c.b = %s; c.r = rc::Z("%x", 16); c.h = rc::Z("%x", 16); c.two = %d; %s return c; }
};""" % (n, form, g["typ"], g["which"], coords[0], g["default"] or coords[0], n, g["which"] == "g2", g["form"] == "edw2", bool(g["default"]), bool(g["gen"]), p, lv, k, hx(g["a"]), hx(g["b"]),
                    g["r"], g["h"], g["two"], "c.gx = %s; c.gy = %s;" % (hx(g["gen"][0]), hx(g["gen"][1])) if g["gen"] else ""))
        for c in coords:
            lst.append("R(G_%s, %s)" % (n, c))
    # the element headers need the field headers, which the curve headers bring
    order = sorted(hs, key=lambda h: (h.startswith("curves/params"), h.startswith("curves/detail/forms"), h))
    pre = "\n".join("#include <nil/crypto3/algebra/%s>" % h for h in order)
    link = [n for n in ("jubjub", "babyjubjub") if n + "_te" in names and n + "_m" in names]
    if link:
        out.append("#define LINK \"%s\"\n#define LINK_T G_%s_te\n#define LINK_M G_%s_m" % (link[0], link[0], link[0]))
    if "ed25519" in names and "curve25519_m" in names:
        out.append("#define LINK \"curve25519\"\n#define LINK_T G_ed25519\n#define LINK_M G_curve25519_m")
    return pre + "\n" + "\n".join(out) + "\n#define GROUP_LIST(R) %s\n#define GROUPS(R) %s\n#include \"%s\"\n" % (
        " ".join(lst), " ".join("R(G_%s)" % n for n in names), inc)
