"""C25: generates structs with chosen sets of members and the classification every trait must give them"""
import random

TYPES_TTI = ("extension_policy curve_type field_type value_type integral_type base_field_type modular_type "
             "scalar_field_type gt_type group_type").split()
TYPES_DET = ("encoded_value_type encoded_block_type decoded_value_type decoded_block_type block_type digest_type "
             "key_type key_schedule_type word_type").split()
BITS_TTI = "value_bits modulus_bits arity".split()
BITS_DET = ("encoded_value_bits encoded_block_bits decoded_value_bits decoded_block_bits block_bits digest_bits key_bits "
            "min_key_bits max_key_bits key_schedule_bits word_bits rounds").split()

DECL = {}    # member -> declaration; NAME is the struct
for t in TYPES_TTI + TYPES_DET + ["iterator", "const_iterator"]:
    DECL[t] = "typedef int *%s;" % t if "iterator" in t else "typedef int %s;" % t
for t in BITS_TTI + BITS_DET:
    DECL[t] = "constexpr static const std::size_t %s = 7;" % t
for g in ("g1_type", "g2_type"):
    DECL[g] = "typedef int %s;" % g
    DECL[g + "/template"] = "template<class A = int, class B = int> using %s = int;" % g
DECL.update({
    "zero": "static NAME zero();", "one": "static NAME one();", "is_zero": "bool is_zero();",
    "is_well_formed": "bool is_well_formed();", "double_inplace": "NAME &double_inplace();",
    "mixed_add": "void mixed_add(NAME const &);",
    "begin": "const_iterator begin() const;", "end": "const_iterator end() const;",
    "encode": "encoded_block_type encode();", "decode": "decoded_block_type decode();",
    "encrypt": "block_type encrypt();", "decrypt": "block_type decrypt();",
    "generate": "void generate();", "check": "void check() const;",
})
NEEDS = {"begin": "const_iterator", "end": "const_iterator", "encode": "encoded_block_type", "decode": "decoded_block_type",
         "encrypt": "block_type", "decrypt": "block_type"}
# a member of the right name and the wrong kind
WRONG = {"value_bits": "std::size_t value_bits;", "modulus_bits": "constexpr static const int modulus_bits = 7;",
         "arity": "static int arity;", "zero": "NAME zero();", "one": "static int one();", "is_zero": "int is_zero();",
         "is_well_formed": "bool is_well_formed(int);", "double_inplace": "NAME double_inplace();",
         "mixed_add": "NAME mixed_add(NAME const &);", "value_type": "int value_type;", "field_type": "void field_type();"}
UNRELATED = ["int unrelated;", "typedef double other_type;", "void helper() const;", "static int count();", "typedef char value_types;",
             "static const int bits = 3;", "template<class Q> struct rebind { };", "typedef int base_type;", "int is_one() const;"]

TRAITS = {    # trait -> required members ("construction.type" and "construction.params_type" are nested)
    "algebra::is_curve": "base_field_type scalar_field_type g1_type g2_type gt_type",
    "algebra::is_curve_group": "value_type field_type value_bits curve_type",
    "algebra::is_field": "value_type value_bits integral_type modulus_bits modular_type arity",
    "algebra::is_extended_field": "value_type value_bits integral_type modulus_bits modular_type extension_policy",
    "algebra::is_group_element": "field_type group_type zero one is_zero is_well_formed double_inplace",
    "algebra::has_mixed_add": "mixed_add",
    "detail::is_range": "iterator const_iterator begin end",
    "detail::is_container": "iterator const_iterator begin end",
    "detail::is_codec": "encoded_value_type encoded_value_bits decoded_value_type decoded_value_bits encoded_block_type "
                        "encoded_block_bits decoded_block_type decoded_block_bits encode decode",
    "detail::is_block_cipher": "word_type word_bits block_type block_bits key_type key_bits rounds encrypt decrypt",
    "detail::is_hash": "digest_type digest_bits construction.type construction.params_type",
    "detail::is_mac": "digest_type digest_bits block_type block_bits key_type key_bits",
    "detail::is_kdf": "digest_type digest_bits key_type max_key_bits min_key_bits",
    "detail::is_passhash": "generate check",
}
TRAITS = {k: v.split() for k, v in TRAITS.items()}
for m in TYPES_DET + BITS_DET + ["iterator", "const_iterator", "begin", "end", "encode", "decode", "encrypt", "decrypt", "generate", "check"]:
    TRAITS["detail::has_" + m] = [m]
PLAIN = [m for m in DECL if "/" not in m]
# is_range does not ask for const_iterator by name, but it is the return type begin() and end() are looked up with


def closed(members):
    out = set(members)
    for m in list(out):
        if m in NEEDS:
            out.add(NEEDS[m])
    return out


def make(seed, n_random, part, parts, thorough):
    rnd = random.Random("%s/%s" % (seed, "c25"))
    sets = []    # (members, wrong)
    for t, req in TRAITS.items():
        if t.startswith("detail::has_"):
            continue
        sets.append((set(req), set()))
        for r in req:
            sets.append((closed(set(req) - {r}), set()))
            if r in WRONG:
                sets.append((set(req) - {r}, {r}))
        k = len(req)
        if k <= 7:
            for mask in range(1 << k):
                sets.append((closed(r for i, r in enumerate(req) if mask >> i & 1), set()))
    sets.append((set(PLAIN) | {"construction.type", "construction.params_type"}, set()))
    allm = PLAIN + ["construction.type", "construction.params_type"]
    for m in allm:
        sets.append((closed({m}), set()))
    for _ in range(n_random):
        base = set(rnd.choice(list(TRAITS.values())))
        if rnd.random() < .5 and base:
            base.discard(rnd.choice(sorted(base)))
        base |= set(rnd.sample(allm, rnd.choice([0, 1, 2, 4, 10, 25])))
        wrong = set(w for w in WRONG if rnd.random() < .05)
        sets.append((closed(base - wrong), wrong))
    out, rows = [], []
    for i, (mem, wrong) in enumerate(sets):
        if i % parts != part:
            continue
        name = "S%d" % i
        decl = []
        derived = rnd.random() < .3
        for m in sorted(mem):
            if m.startswith("construction."):
                continue
            d = DECL[m]
            if m in ("g1_type", "g2_type") and rnd.random() < .6:
                d = DECL[m + "/template"]
            decl.append((m, d))
        nested = [m.split(".")[1] for m in sorted(mem) if m.startswith("construction.")]
        if nested or rnd.random() < .1:
            decl.append(("construction", "struct construction { %s };" % " ".join("typedef int %s;" % n for n in nested)))
        for w in sorted(wrong - mem):
            decl.append((w, WRONG[w]))
        for u in rnd.sample(UNRELATED, rnd.choice([0, 0, 1, 3])):
            decl.append(("-", u))
        rnd.shuffle(decl)
        decl.sort(key=lambda d: d[0] in NEEDS)    # return types first
        if derived:    # types and constants may as well be inherited
            base = [d for d in decl if d[0] != "-" and (d[1].startswith("typedef") or d[1].startswith("constexpr"))
                    and d[0] not in wrong and rnd.random() < .6]
            decl = [d for d in decl if d not in base]
            out.append("struct B%d { %s };" % (i, " ".join(d for _, d in base)))
        body = " ".join(d.replace("NAME", name) for _, d in decl)
        out.append("struct %s%s { %s };" % (name, " : B%d" % i if derived else "", body))
        fits = []
        for t, req in TRAITS.items():
            if wrong & set(req) and not t.startswith("algebra"):
                continue    # the detail:: traits look at names only
            want = set(req) <= mem
            fits.append((t, want))
        rows.append((i, name, sorted(mem), sorted(wrong), fits))
    src = ['#include "c25.hpp"', "namespace nil { namespace crypto3 { namespace {"] + out
    src.append("static const Row rows_[] = {")
    for i, name, mem, wrong, fits in rows:
        src.append('{"struct {%s}%s", {%s}},' % (" ".join(mem), " wrong kind {%s}" % " ".join(wrong) if wrong else "",
                                               ", ".join('{"%s", %s<%s>::value, %s}' % (t, t, name, "true" if w else "false") for t, w in fits)))
    src.append("};")
    src.append("static RegisterRows reg_(rows_, sizeof rows_ / sizeof rows_[0]);")
    src.append("}}}")
    return "\n".join(src) + "\n"
