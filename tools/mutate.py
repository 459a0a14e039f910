#!/usr/bin/env python3
"""Mutation campaign: small textual changes of a scratch copy of /repo, each run through the checks of the
properties its file is mapped to; what no check notices is printed and kept in OUT/survivors.

  mutate.py WORKER SECONDS OUT [regex of files] [only these properties, comma separated]
"""
import os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w, secs, out = sys.argv[1], float(sys.argv[2]), sys.argv[3]
only = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
props = set(sys.argv[5].split(",")) if len(sys.argv) > 5 else None
R = "/tmp/mut_" + w
B = R + "_build"
A = "include/nil/crypto3/algebra/"
MAP = [
    (r"^vector/", "C01 C05"), (r"^matrix/", "C02 C03 C05"), (r"^scalar/", "C04 C05"),
    (r"^fields/detail/element/fp\.hpp", "C06 C10"), (r"^fields/detail/element/operations", "C06 C08"),
    (r"^fields/detail/element/", "C08 C11 C09 C10"), (r"^fields/detail/exponentiation", "C06 C08"),
    (r"^fields/detail/extension_params/", "C09 C08 C11 C07 C10"), (r"^fields/", "C07 C06"),
    (r"^curves/detail/forms/.*/(add|dbl|madd)_", "C12"), (r"^curves/detail/forms/", "C13 C12 C15 C16"),
    (r"^curves/detail/edwards/element_g2", "C13 C15 C16"), (r"^curves/detail/h2c/", "C23"),
    (r"^curves/detail/marshalling", "C21 C22"), (r"^curves/detail/(scalar_mul|subgroup_check)", "C16"),
    (r"^curves/detail/.*params", "C14 C13"), (r"^curves/detail/", "C14 C13 C16"),
    (r"^curves/params/wnaf", "C17"), (r"^curves/params/multiexp", "C18"), (r"^curves/", "C14 C25"),
    (r"^multiexp/", "C18"), (r"^wnaf", "C17"), (r"^pairing/|^algorithms/pair", "C19 C20"),
    (r"^random_element", "C24"), (r"^type_traits", "C25"), (r"^marshalling", "C27"), (r"^../detail/type_traits", "C25"), (r"^../detail", "C26"), (r"^totient|^primes|strxor", "C26"),
    (r"^", "C26 C05"),
]
SKIP = re.compile(r"coordinates\.hpp|affine_ate|tate_(miller|precompute)|pairing/detail/(alt_bn128|bls12/377)|curves/(p\d|brainpool|gost|x962|frp|sm2p|ed25519|params|forms)|dsa_(botan|jce)|curves/detail/params")


def props_of(f):
    for r, p in MAP:
        if re.search(r, f):
            return [x for x in p.split() if not props or x in props]
    return []


OPS = [(r"(?<![+\w>])\+(?![+=])", "-"), (r"(?<![-e<(,=])\s-\s", " + "), (r"(?<!/)\*(?![=/)>])\s", "+ "), (r"==", "!="), (r"!=", "=="),
       (r"<(?= \w+;)", "<="), (r"<=", "<"), (r">=", ">"), (r" > ", " >= "), (r" < ", " <= "), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b3\b", "2"),
       (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[\w(])", ""),
       (r"\.squared\(\)", ""), (r"\.doubled\(\)", ""), (r"\.inversed\(\)", ""), (r"\bX\b", "Y"), (r"\bY\b", "X"), (r"\bZ\b", "X"), (r"\bT\b", "X"),
       (r"\.X\b", ".Y"), (r"\.Y\b", ".Z"), (r"\.Z\b", ".X"), (r"<<", ">>"), (r">>", "<<"), (r"\bi\b", "(i + 1)"), (r"\bother\b", "(*this)"),
       (r"is_zero", "is_one"), (r"\bzero\(\)", "one()"), (r"\bone\(\)", "zero()"), (r"% ", "+ "), (r"/ ", "* "), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
       (r"->second", "->first"), (r"\bP\b", "Q"), (r"\bfirst\b", "second"), (r"\bA\b", "B"), (r"\bB\b", "A"), (r"-(?=[a-z])", "")]


def mutants(line):
    res = []
    s = line.strip()
    if not s or s.startswith(("//", "*", "/*", "#", "template", "typedef", "using", "namespace", "static_assert", "BOOST_", "struct", "class", "}", "public", "private")):
        return res
    code = line.split("//")[0]
    for pat, rep in OPS:
        for m in re.finditer(pat, code):
            if "template" in code or "std::enable_if" in code:
                continue
            res.append(code[:m.start()] + rep + code[m.end():])
    for m in re.finditer(r"0x[0-9a-fA-F]{3,}", code):
        i = random.randrange(m.start() + 2, m.end())
        d = random.choice([c for c in "0123456789abcdef" if c != code[i].lower()])
        res += [code[:i] + d + code[i + 1:]] * 3
    if re.match(r"^\s*[\w\.\[\]\->\(\)\*&:]+(\s*[-+*/^|&]?=[^=].*)?;\s*$", code) and not re.match(r"^\s*(return|break|continue|\w+ \w+;)", code) and not re.match(r"^\s*(const |constexpr |static |typename )", code):
        res += [re.sub(r"\S.*", ";", code)] * 2
    return res


def sh(c, env=None, t=1000):
    try:
        return subprocess.run(c, shell=True, text=True, errors="replace", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 99, "timeout")


def main():
    os.makedirs(out + "/survivors", exist_ok=True)
    os.makedirs(B, exist_ok=True)
    sh("rm -rf %s; git clone -q /repo %s" % (R, R))
    files = [f for f in sh("cd %s/%s && find . ../detail -name '*.hpp'" % (R, A)).stdout.split()]
    files = sorted((f[2:] if f.startswith('./') else f) for f in files if not SKIP.search(f))
    files = [f for f in files if props_of(f) and (not only or only.search(f))]
    random.seed("%s/%s" % (w, time.time()))
    end = time.time() + secs
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B, VERIF_SEED="1")
    wt = [min(6, 1 + os.path.getsize(R + "/" + A + f) / 4000) for f in files]
    n = 0
    while time.time() < end:
        f = random.choices(files, wt)[0]
        p = R + "/" + A + f
        text = open(p, errors="replace").read()
        lines = text.split("\n")
        i = random.randrange(len(lines))
        before = "\n".join(lines[:i + 1])
        if before.rfind("/*") > before.rfind("*/") or "*/" in lines[i]:
            continue
        ms = [m for m in mutants(lines[i]) if m.strip() != lines[i].split("//")[0].strip()]
        if not ms:
            continue
        m = random.choice(ms)
        open(p, "w").write("\n".join(lines[:i] + [m] + lines[i + 1:]))
        t = time.time()
        res = []
        for pr in props_of(f):
            r = sh("timeout 900 python3 %s/check.py %s quick" % (V, pr), env)
            res.append("%s:%d" % (pr, r.returncode))
            if r.returncode != 0:
                break
        n += 1
        last = int(res[-1].split(":")[1])
        verdict = {0: "SURVIVED", 1: "caught", 2: "nocompile"}.get(last, "rc%d" % last)
        if last not in (1, 2):
            b = sh("CC=clang-18 CXX=clang++-18 cmake -S /opt/vp/cmake -B %s_cm -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DREPO=%s && ninja -C %s_cm algebra_headers && ctest --test-dir %s_cm" % (R, R, R, R))
            if b.returncode:
                verdict = "stable-fails"
            else:
                open("%s/survivors/%s_%d.diff" % (out, w, n), "w").write(sh("git -C %s diff" % R).stdout)
        with open(out + "/log", "a") as g:
            g.write("%s_%d %s %s:%d %ds [%s]\n" % (w, n, verdict, f, i + 1, time.time() - t, " ".join(res)))
            if verdict not in ("caught", "nocompile"):
                g.write("   - %s\n   + %s\n" % (lines[i].strip()[:160], m.strip()[:160]))
        open(p, "w").write(text)
    sh("rm -rf %s %s %s_cm" % (R, B, R))


main()
