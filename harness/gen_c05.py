"""C05: generates operations on literal operands, evaluated by the compiler and again at run time"""
import random

TYPES = ["int", "double", "float", "unsigned", "long long", "R97"]
FLOAT = ("double", "float")


def lit(r, t, nz=False):
    if t in FLOAT:
        k = r.random()
        v = r.choice([0.0, 1.0, -1.0, 0.1, -2.5, 1e-3, 3.0]) if k < .3 else (r.uniform(-100, 100) if k < .7 else
            (float(r.randint(-9, 9)) if k < .9 else r.uniform(-1, 1) * 10.0 ** r.randint(-30 if t == "double" else -8, 30 if t == "double" else 8)))
        if nz and v == 0:
            v = 1.5
        return repr(v) if t == "double" else "static_cast<float>(%r)" % v
    if t == "cd":
        return "cd(%s, %s)" % (lit(r, "double"), lit(r, "double"))
    v = r.choice([0, 1, 2, -1]) if r.random() < .3 else r.randint(-50, 50)
    if t == "unsigned":
        v = abs(v)
    if nz and v == 0:
        v = 3
    return "R97(%d)" % v if t == "R97" else ("%du" % v if t == "unsigned" else ("%dll" % v if t == "long long" else "%d" % v))


def vec(r, t, n, nz=False):
    return "la::vector<%s, %d>" % (t, n), "la::vector<%s, %d>{{%s}}" % (t, n, ", ".join(lit(r, t, nz) for _ in range(n)))


def mat(r, t, n, m, nz=False, rows=None):
    rows = rows or [[lit(r, t, nz) for _ in range(m)] for _ in range(n)]
    return "la::matrix<%s, %d, %d>" % (t, n, m), "la::matrix<%s, %d, %d>{{%s}}" % (t, n, m, ", ".join("{%s}" % ", ".join(x) for x in rows))


def case(r):
    """(list of (type, literal)), expression over a, b, c"""
    t = r.choice(TYPES)
    n, m, p, q = (r.randint(1, 5) for _ in range(4))
    V = lambda n=n, t=t, nz=False: vec(r, t, n, nz)
    M = lambda n=n, m=m, t=t, nz=False: mat(r, t, n, m, nz)
    S = lambda t=t, nz=False: (t, lit(r, t, nz))
    signed = t not in ("unsigned",)
    k = r.randint(0, 3)
    ops = []
    add = ops.append
    for x in ("V", "M"):
        X = V if x == "V" else M
        add(lambda X=X: ([X(), X()], "a + b"))
        add(lambda X=X: ([X(), X()], "a * b"))
        add(lambda X=X: ([X(), S()], "a + b"))
        add(lambda X=X: ([S(), X()], "a + b"))
        add(lambda X=X: ([X(), S()], "a * b"))
        add(lambda X=X: ([S(), X()], "a * b"))
        if t != "R97":
            add(lambda X=X: ([S(), X(nz=True)], "a / b"))
            add(lambda X=X: ([X(), X(nz=True)], "a / b"))
            add(lambda X=X: ([X()], "la::cast<%s>(a)" % r.choice(["double", "int", "long long"])) if t not in FLOAT else ([X()], "la::cast<double>(a)"))
        add(lambda X=X: ([X(), X()], "a == b"))
        add(lambda X=X: ([X(), X()], "a != b"))
        add(lambda X=X: ([X()], "a == a"))
        add(lambda X=X: ([X()], "la::elementwise([](%s x) { return x * x; }, a)" % t))
        add(lambda X=X: ([X(), X()], "la::elementwise([](%s x, %s y) { return x + y * y; }, a, b)" % (t, t)))
        c = (lambda: V(t="cd")) if x == "V" else (lambda: M(t="cd"))
        for f in ("conj", "real", "imag"):
            add(lambda f=f, c=c: ([c()], "la::%s(a)" % f))
        if t != "R97":
            for f in (("conj", "abs") if signed or True else ("conj",)):
                if f == "abs" and x == "M":
                    continue
                add(lambda f=f, X=X: ([X()], "la::%s(a)" % f))
    add(lambda: ([V(), S()], "la::accumulate(a, b, [](%s x, %s y) { return x + y; })" % (t, t)))
    add(lambda: ([S()], "la::iota<%d, %s>(a)" % (n, t)))
    if t in FLOAT:
        add(lambda: ([S(), S()], "la::linspace<%d>(a, b)" % (n + 1)))
        add(lambda: (["double" == t and ("la::vector<double, %d>" % n, "la::vector<double, %d>{{%s}}" % (n, ", ".join(repr(abs(float(lit(r, "double")))) for _ in range(n)))) or V(t="cd")],
                     "la::sqrt(a)" if t == "double" else "la::conj(a)"))
    add(lambda: ([S()], "la::fill<%d>(a)" % n))
    add(lambda: ([S()], "la::fill<%d, %d>(a)" % (n, m)))
    add(lambda: ([S()], "la::generate<%d>([&](std::size_t i) { return a * static_cast<%s>(static_cast<int>(i * i)); })" % (n, t)))
    add(lambda: ([S()], "la::generate<%d, %d>([&](std::size_t i, std::size_t j) { return a * static_cast<%s>(static_cast<int>(i * 10 + j)); })" % (n, m, t)))
    add(lambda: ([V(), ("int", str(r.randint(-20, 20)))], "la::rotate(a, b)"))
    add(lambda: ([V(n + 3), ("std::size_t", str(r.randint(0, 3)))], "la::slice<%d>(a, b)" % n))
    add(lambda: ([V(), V(m)], "la::concat(a, b)"))
    add(lambda: ([V(), V()], "la::dot(a, b)"))
    for f in ("sum",) + (("min", "max", "min_index", "max_index")):
        add(lambda f=f: ([V()], "la::%s(a)" % f))
    for f in ("transpose", "hermitian"):
        add(lambda f=f: ([M()], "la::%s(a)" % f) if t != "R97" or f == "transpose" else ([M(t="cd")], "la::hermitian(a)"))
        add(lambda f=f: ([M(t="cd")], "la::%s(a)" % f))
    add(lambda: ([M(), M(m, p)], "la::matmul(a, b)"))
    add(lambda: ([V(), M()], "la::vectmatmul(a, b)"))
    add(lambda: ([M(), V(m)], "la::matvectmul(a, b)"))
    add(lambda: ([mat(r, t, r.randint(1, 3), r.randint(1, 3)), mat(r, t, r.randint(1, 3), r.randint(1, 3))], "la::kron(a, b)"))
    if t in FLOAT or t in ("int", "long long"):
        add(lambda: ([M()], "la::macs(a)"))
        add(lambda: ([M()], "la::mars(a)"))
    add(lambda: ([M(n, n)], "la::trace(a)"))
    add(lambda: ([M()], "la::repmat<2, 3>(a)"))
    add(lambda: ([M(), ("std::size_t", str(r.randrange(n))), ("std::size_t", str(r.randrange(n)))], "la::swaprow(a, b, c)"))
    add(lambda: ([M(), ("std::size_t", str(r.randrange(m))), ("std::size_t", str(r.randrange(m)))], "la::swapcol(a, b, c)"))
    add(lambda: ([M(), M(n, p)], "la::horzcat(a, b)"))
    add(lambda: ([M(), M(p, m)], "la::vertcat(a, b)"))
    add(lambda: ([M(n + 2, m + 1), ("std::size_t", str(r.randint(0, 2))), ("std::size_t", str(r.randint(0, 1)))], "la::submat<%d, %d>(a, b, c)" % (n, m)))
    add(lambda: ([M(2 * n, m)], "la::reshape<%d, %d>(a)" % (n, 2 * m)))
    add(lambda: ([M()], "la::reshape<%d, 1>(a)" % (n * m)))
    add(lambda: ([V()], "la::as_column(a)"))
    add(lambda: ([V()], "la::as_row(a)"))
    add(lambda: ([M()], "a.row(%d)" % r.randrange(n)))
    add(lambda: ([M()], "a.column(%d)" % r.randrange(m)))
    add(lambda: ([V()], "la::get_identity<%s, %d>() * a[0]" % (t, n)))
    add(lambda: ([S()], "la::identity<%s, %d> * a" % (t, n)))
    for _ in range(3):    # eliminations are where the two evaluations could part
        tt = r.choice(["double", "double", "float"])
        add(lambda tt=tt: ([M(t=tt)], "la::rref(a)"))
        add(lambda tt=tt: ([M(t=tt)], "la::rank(a)"))
        add(lambda tt=tt: ([M(n, n, t=tt)], "la::det(a)"))
        # regular by diagonal dominance
        nn = r.randint(1, 4)
        rows = [[repr(r.uniform(-1, 1) + (8 * r.choice([-1, 1]) if i == j else 0)) for j in range(nn)] for i in range(nn)]
        r.shuffle(rows)
        add(lambda nn=nn, rows=rows: ([mat(r, "double", nn, nn, rows=rows)], "la::inverse(a)"))
    for _ in range(3):
        x = abs(float(lit(r, "double")))
        add(lambda x=x: ([("double", repr(x))], "la::sqrt(a)"))
        add(lambda x=x: ([("double", repr(x)), ("int", str(r.randint(1, 9)))], "la::nthroot(a, b)"))
        add(lambda x=x: ([("double", lit(r, "double", True)), ("int", str(r.randint(-12, 12)))], "la::exponentiate(a, b)"))
    add(lambda: ([("float", "static_cast<float>(%r)" % abs(float(lit(r, "double")) % 1e6))], "la::sqrt(a)"))
    if t != "R97":
        add(lambda: ([S()], "la::abs(a)"))
    add(lambda: ([("cd", lit(r, "cd"))], "la::conj(a)"))
    return r.choice(ops)()


def make(seed, count, part):
    r = random.Random("%s/c05/%d" % (seed, part))
    out = ['#include "c05.hpp"']
    rows = []
    for i in range(count):
        args, expr = case(r)
        names = "abc"[:len(args)]
        out.append("namespace t%d {" % i)
        out.append("constexpr auto f = [](%s) { return %s; };" % (", ".join("auto const &%s" % x for x in names), expr))
        for x, (t, l) in zip(names, args):
            out.append("constexpr %s %s = %s;" % (t, x, l))
        out.append("constexpr auto at_compile_time = f(%s);" % ", ".join(names))
        out.append("void run() { auto r = f(%s); CHECK(same(r, at_compile_time), \"the compiler computes \" << show(at_compile_time) << \" and the program \" << show(r)); }"
                   % ", ".join("launder(%s)" % x for x in names))
        out.append("}")
        rows.append('{"%s with %s", t%d::run},' % (expr.replace('"', ''), ", ".join("%s = %s" % (x, l) for x, (t, l) in zip(names, args)), i))
    out += ["static const Row rows[] = {"] + rows + ["};"]
    out.append('''PROP(constant_evaluation, 6000, 30000, "every case: each is a distinct operation on distinct operands") {
    const Row &r = rows[S.index(sizeof rows / sizeof rows[0])];
    S.note(r.desc);
    S.nontrivial();
    r.run();
}''')
    return "\n".join(out) + "\n"
