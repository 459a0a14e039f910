#!/usr/bin/env python3
"""Plant a bug in a scratch copy of /repo, confirm it, keep it under seeded/.

  plant.py new                       fresh scratch copy /tmp/bw of /repo's HEAD
  plant.py save ID                   write seeded/ID/patch.diff from the edits in /tmp/bw
  plant.py confirm ID...             apply each patch to a fresh copy: builds, stable tests pass,
                                     demo 0 on /repo and non-zero on the copy; then run the check
  plant.py check ID...               only run the property's quick check against the patched copy
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("BW", "/tmp/bw")


def sh(cmd, cwd=None, env=None, quiet=True):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, text=True, errors="replace",
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def fresh():
    sh("git -C /repo worktree prune")
    if os.path.exists(W):
        sh("rm -rf %s" % W)
    r = sh("git clone -q /repo %s" % W)
    if r.returncode:
        sys.exit(r.stdout)


def check(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD=W + "_build")
    os.makedirs(W + "_build", exist_ok=True)
    t = time.time()
    r = sh("python3 %s/check.py %s quick" % (V, meta["property"]), env=env)
    got = r.returncode == 1 and "VIOLATION property=%s" % meta["property"] in r.stdout
    print(i, meta["property"], "CAUGHT" if got else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t))
    print("   ", "\n    ".join(l[:300] for l in r.stdout.splitlines()[:(3 if got else 6)]))


def confirm(i, run_check=True):
    d = os.path.join(V, "seeded", i)
    fresh()
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode != 0:
        print(i, "BAD: demo fails on the unchanged tree", r.stdout[-800:])
        return
    r = sh("git apply %s/patch.diff" % d, cwd=W)
    if r.returncode:
        print(i, "BAD: patch", r.stdout)
        return
    r = sh("CC=clang-18 CXX=clang++-18 cmake -S /opt/vp/cmake -B %s_cm -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DREPO=%s && ninja -C %s_cm algebra_headers && ctest --test-dir %s_cm" % (W, W, W, W))
    if r.returncode:
        print(i, "BAD: build or tests fail", r.stdout[-800:])
        return
    r = sh("bash %s/demo.sh" % d, cwd=W)
    print(i, "demo with patch: rc=%d" % r.returncode, r.stdout.strip()[-200:].replace("\n", " | "))
    if r.returncode == 0:
        print(i, "BAD: demo passes with the patch")
        return
    if run_check:
        check(i)


a = sys.argv[1:]
if a[0] == "new":
    fresh()
elif a[0] == "save":
    d = os.path.join(V, "seeded", a[1])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=W).stdout)
elif a[0] == "confirm":
    for i in a[1:]:
        confirm(i)
elif a[0] == "check":
    for i in a[1:]:
        fresh()
        sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=W)
        check(i)
