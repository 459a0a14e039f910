"""mkbug(id, prop, needs, breaks, [(file, old, new)], demo_cpp): edits a fresh scratch copy and stores the bug."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("BW", "/tmp/bw")
A = "include/nil/crypto3/algebra/"
LA = '#include <complex>\n#include <cstdio>\n#include <cmath>\n#include <limits>\n#include <nil/crypto3/algebra/matrix/matrix.hpp>\n#include <nil/crypto3/algebra/matrix/utility.hpp>\n#include <nil/crypto3/algebra/matrix/math.hpp>\n#include <nil/crypto3/algebra/matrix/operators.hpp>\n#include <nil/crypto3/algebra/vector/vector.hpp>\n#include <nil/crypto3/algebra/vector/math.hpp>\n#include <nil/crypto3/algebra/vector/utility.hpp>\n#include <nil/crypto3/algebra/vector/operators.hpp>\n#include <nil/crypto3/algebra/scalar/math.hpp>\n'


def mkbug(i, prop, needs, breaks, edits, demo, extra_inc="", shim=False):
    subprocess.check_call([sys.executable, os.path.join(V, "tools/plant.py"), "new"])
    for f, old, new in edits:
        p = os.path.join(W, A, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    subprocess.check_call([sys.executable, os.path.join(V, "tools/plant.py"), "save", i])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    inc = '-I "$PWD/include"'
    if shim:
        subprocess.check_call(["rm", "-rf", os.path.join(d, "shim")])
        subprocess.check_call(["cp", "-r", os.path.join(V, "shim"), os.path.join(d, "shim")])
        inc += ' -I "$D/shim"'
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# run in the repository: 0 when the property holds\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
        'clang++-18 -std=c++17 -O1 -w -fconstexpr-steps=1000000000 -fbracket-depth=1024 %s "$D/demo.cpp" -o "$T/demo" || exit 3\ntimeout 120 "$T/demo"\n' % inc)
