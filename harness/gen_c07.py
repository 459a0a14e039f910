"""C07: published constants of the prime and extension fields."""
import json
import os
import gen_fields as gf
import gen_ext as ge
HERE = os.path.dirname(os.path.abspath(__file__))
ARITH = ["alt_bn128", "bls12", "bn128", "edwards", "mnt4", "mnt6", "pallas", "vesta", "goldilocks64", "ed25519"]


def table(fields):
    d = json.load(open(os.path.join(HERE, "published.json")))
    out = []
    for n, _, _ in fields:
        m = d["modulus"].get(n)
        dh = d["dh_generator"].get(n, 2 if n.startswith(("ffdhe", "modp_ietf")) else 0)
        fac = d["factors"].get(n, [])
        out.append('{"%s", %s, {%s}, %d}' % (n, '"%s"' % m[2:] if m else "nullptr", ", ".join('"%s"' % f[2:] for f in fac), dh))
    return "#define PUBLISHED_TABLE " + ", \\\n    ".join(out) + "\n"


def primes(k, n):
    fields = gf.groups(gf.PRIME + gf.BIG, n)[k]
    pre = "".join("#include <nil/crypto3/algebra/fields/arithmetic_params/%s.hpp>\n" % a for a in ARITH)
    # the short names of the fields
    al = []
    for n, _, t in fields:
        for a, b in (("_base_field", "_fq"), ("_scalar_field", "_fr")):
            if a in t:
                al.append((t, t.replace(a, b)))
        if "_base_field" in t and not t.startswith(("sect", "secp", "curve", "pallas", "vesta")):
            al.append((t, t.replace("_base_field", "")))
        if t.startswith("curve25519_base"):
            al.append((t, "ed25519"))
        if t == "goldilocks64":
            al += [(t, "goldilocks64_base_field"), (t, "goldilocks64_fq")]
    body = "".join('    if (k == %d) CHECK((std::is_same<%s, %s>::value), "%s is not %s");\n' % (i, x, y, y, x) for i, (x, y) in enumerate(al))
    tail = 'PROP(field_names_%d, %d, %d, "always") {\n    std::size_t k = S.index(%d); S.note("name ", k); S.nontrivial(true);\n%s}\n' % (k, 6 * len(al), 6 * len(al), len(al), body)
    return pre + table(fields) + gf.make(fields, "c07.inc") + tail


def exts(bases):
    return ge.make(bases, "c07_ext.inc")
