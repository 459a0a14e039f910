#!/usr/bin/env python3
"""Driver of one property check: builds the generated-input harness of a property from /repo's
working tree, runs it, writes evidence/<id>.json and reports.

  check.py <ID> quick|thorough            run the check
  check.py <ID> --replay <replay file>    re-run one recorded case
  check.py --list
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "harness"))
from units import UNITS, ASSUMPTIONS  # noqa: E402

CXX = "clang++-18"
BASE = ["-std=c++17", "-O1", "-w", "-fconstexpr-steps=1000000000", "-fbracket-depth=1024"]
INC = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(V, "shim"), "-I", os.path.join(V, "harness")]
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
OUT = V if REPO == "/repo" else BUILD  # evidence and replays of a scratch copy stay with its objects
NCPU = os.cpu_count() or 8


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"


def parse_deps(path):
    with open(path) as f:
        text = f.read().replace("\\\n", " ")
    return [d for d in text.split(":", 1)[1].split() if not d.startswith("/usr/")]


def compile_obj(name, src, flags):
    """object file for src, rebuilt whenever any file it includes or its flags changed"""
    obj = os.path.join(BUILD, name + ".o")
    dep, meta = obj + ".d", obj + ".json"
    cmd = [CXX] + BASE + flags + INC + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    try:
        with open(meta) as f:
            m = json.load(f)
        if m["cmd"] == cmd and os.path.exists(obj) and all(sha(p) == h for p, h in m["deps"].items()):
            return obj, None
    except (OSError, ValueError, KeyError):
        pass
    for p in (meta, obj):
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if "error" in l or "fatal" in l]
        return None, "%s: %s" % (name, " | ".join(l[:300] for l in errs[:4]) or r.stdout[:600])
    with open(meta, "w") as f:
        json.dump({"cmd": cmd, "deps": {p: sha(p) for p in parse_deps(dep)}}, f)
    return obj, None


def build_unit(pid, u, seed, tier):
    san = u.get("san", [])
    eng_name = "engine" + ("_" + hashlib.sha256(" ".join(san).encode()).hexdigest()[:8] if san else "")
    with eng_lock:
        eng, err = compile_obj(eng_name, os.path.join(V, "harness", "engine.cpp"), san)
    if err:
        return None, err
    src = u["src"]
    if callable(src):    # the text of a generated source
        text = src(seed, tier == "thorough")
        src = os.path.join(BUILD, u["name"] + ".gen.cpp")
        with open(src, "w") as f:
            f.write(text)
    else:
        src = os.path.join(V, "harness", src)
    obj, err = compile_obj(u["name"], src, u.get("flags", []) + san)
    if err:
        return None, err
    objs = [obj, eng]
    for x in u.get("extra", []):
        with eng_lock:
            o, err = compile_obj(eng_name + "_" + x, os.path.join(V, "harness", x), ["-O2"] + san)
        if err:
            return None, err
        objs.append(o)
    exe = os.path.join(BUILD, u["name"])
    r = subprocess.run([CXX] + san + objs + ["-o", exe, "-lgmpxx", "-lgmp"] + u.get("libs", []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        return None, "%s: link: %s" % (u["name"], r.stdout[:500])
    return exe, None


eng_lock = threading.Lock()


def refused_case(err):
    """the generated operation the compiler refused to evaluate"""
    m = re.search(r"(/\S+\.gen\.cpp):(\d+):", err)
    case = ""
    if m:
        with open(m.group(1)) as f:
            lines = f.read().splitlines()
        n = int(m.group(2)) - 1
        k = n
        while k > 0 and not lines[k].startswith("namespace"):
            k -= 1
        case = " ".join(lines[k:n + 1])
    return "the compiler cannot evaluate the operation: " + err[:300], case


def known_findings():
    ids = {}
    try:
        with open(os.path.join(V, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    # finding: property=<id> id=<KF> <what fails>
                    parts = line.split(None, 3)
                    ids[parts[2].split("=", 1)[1]] = (parts[1].split("=", 1)[1], parts[3])
    except OSError:
        pass
    return ids


def main():
    args = sys.argv[1:]
    if args == ["--list"]:
        for k, v in UNITS.items():
            print(k, [u["name"] for u in v])
        return 0
    pid = args[0]
    os.makedirs(BUILD, exist_ok=True)
    units = UNITS[pid]
    if len(args) > 1 and args[1] == "--replay":
        with open(args[2]) as f:
            rep = json.load(f)
        u = [u for u in units if u["name"] == rep["unit"]][0]
        exe, err = build_unit(pid, u, rep["seed"], rep["tier"])
        if err and u.get("const_eval") and "must be initialized by a constant expression" in err:
            print("\n".join(refused_case(err)))
            return 1
        if err:
            print("build failed:", err)
            return 2
        cf = os.path.join(BUILD, "replay.choices")
        with open(cf, "w") as f:
            f.write(" ".join(map(str, rep["choices"])))
        return subprocess.run([exe, "--prop", rep["prop"], "--choices", cf] + (["--thorough"] if rep.get("tier") == "thorough" else [])).returncode
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    wall = float(os.environ.get("VERIF_WALL", "300" if tier == "quick" else "1200"))
    if tier != "thorough":
        units = [u for u in units if not u.get("thorough_only")]
    kf = known_findings()
    results, errors, refused = [], [], []
    lock = threading.Lock()
    slots = threading.Semaphore(NCPU)
    jobs = max(1, min(NCPU, (NCPU + len(units) - 1) // len(units)))

    found = []    # units with a failure: what has not started by then is left out, the answer is known

    def go(u):
        with slots:
            if found:
                return
            exe, err = build_unit(pid, u, seed, tier)
        if err and u.get("const_eval") and "must be initialized by a constant expression" in err:
            # the compiler refused to evaluate an operation it evaluates on the unchanged tree: that is the property
            with lock:
                refused.append((u, err))
                found.append(u)
            return
        if err:
            with lock:
                errors.append(err)
            return
        out = os.path.join(BUILD, u["name"] + ".result.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, "--seed", str(seed), "--out", out, "--jobs", str(jobs), "--wall", str(wall)]
        if tier == "thorough":
            cmd.append("--thorough")
        if "VERIF_SCALE" in os.environ:
            cmd += ["--scale", os.environ["VERIF_SCALE"]]
        for k, (p, _) in kf.items():
            if p == pid:
                cmd += ["--known", k]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99",
                   UBSAN_OPTIONS="print_stacktrace=0")
        with slots:
            if found:
                return
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
        try:
            with open(out) as f:
                data = json.load(f)
        except (OSError, ValueError):
            with lock:
                errors.append("%s: no result (status %s) %s" % (u["name"], r.returncode, r.stderr[-500:]))
            return
        with lock:
            results.append((u, data))
            if any("failure" in p for p in data):
                found.append(u)

    with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, len(units))) as ex:
        list(ex.map(go, units))

    results.sort(key=lambda x: x[0]["name"])
    violations, observed, warn = [], set(), []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "oracle_comparisons": 0, "discarded": 0}
    rules, samples, per = [], [], {}
    for u, data in results:
        for p in data:
            cov["evaluations"] += p["cases"]
            cov["distinct_nontrivial"] += p["distinct_nontrivial"]
            cov["oracle_comparisons"] += p["checks"]
            cov["discarded"] += p["discarded"]
            r = "%s: %s" % (p["name"], p["rule"])
            if r not in rules:
                rules.append(r)
            samples += [s[:1500] for s in p["samples"][:1]]
            per["%s/%s" % (u["name"], p["name"])] = [p["cases"], p["distinct_nontrivial"]]
            observed.update(p["known"])
            if "unconfirmed" in p:
                warn.append("%s/%s failed once but did not fail again on replay: %s" % (u["name"], p["name"], p["unconfirmed"]))
            if "failure" in p:
                d = os.path.join(OUT, "replays", pid)
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%s.json" % (u["name"], p["name"].replace("/", ".")))
                with open(path, "w") as f:
                    json.dump({"property": pid, "unit": u["name"], "prop": p["name"], "tier": tier, "seed": seed,
                               "message": p["failure"]["message"], "case": p["failure"]["case"],
                               "choices": p["failure"]["choices"],
                               "how": "python3 check.py %s --replay %s" % (pid, path)}, f, indent=1)
                violations.append((path, p))
    for u, err in sorted(refused, key=lambda x: x[0]["name"]):
        d = os.path.join(OUT, "replays", pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-constant-evaluation.json" % u["name"])
        msg, case = refused_case(err)
        with open(path, "w") as f:
            json.dump({"property": pid, "unit": u["name"], "prop": "constant_evaluation", "tier": tier, "seed": seed,
                       "message": msg, "case": case, "choices": [],
                       "how": "python3 check.py %s --replay %s" % (pid, path)}, f, indent=1)
        violations.append((path, {"name": u["name"], "failure": {"message": msg, "case": case}}))
    cov["rule"] = ("Cases are generated from VERIF_SEED; distinct = distinct recorded choice sequences. Non-trivial: "
                   + " || ".join(rules))
    cov["samples"] = samples[:40]
    cov["per_generator"] = per
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUMPTIONS.get(pid, []) + ASSUMPTIONS["*"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(observed):
        if k in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kf[k][1]))
    for w in warn:
        print("note:", w)
    print("%s %s: %d cases, %d distinct non-trivial, %d comparisons, %.1f s" % (
        pid, tier, cov["evaluations"], cov["distinct_nontrivial"], cov["oracle_comparisons"], ev["wall_s"]))
    for path, p in violations:
        print("  %s: %s\n    minimal case: %s" % (p["name"], p["failure"]["message"][:900], p["failure"]["case"][:900]))
    if errors:
        for e in errors:
            print("ERROR:", e)
    if violations:
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][0]))
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
