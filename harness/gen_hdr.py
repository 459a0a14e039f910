"""C30: which headers there are; files that do not compile at the pinned commit (DESIGN.md) are not among them."""
import os
import subprocess
import gen_curves
import gen_ext
import gen_fields
import gen_pair
H = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


BUILD = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(H), "build"))
FLAGS = ["-fconstexpr-steps=1000000000", "-fbracket-depth=1024", "-std=c++17", "-w"]


def common():
    """what most headers include of other libraries, parsed once: the quick tier has no time to parse it for every header"""
    shim = os.path.join(os.path.dirname(H), "shim")
    src, pch = os.path.join(BUILD, "C30_common.hpp"), os.path.join(BUILD, "C30_common.pch")
    with open(src, "w") as f:
        f.write("#include <boost/multiprecision/cpp_int.hpp>\n#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>\n#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>\n")
    subprocess.run(["clang++-18"] + FLAGS + ["-O0", "-I" + os.path.join(REPO, "include"), "-I" + shim, "-x", "c++-header", src, "-o", pch], check=True)
    return pch


def uses():
    """statements that use what a public header declares; o is an output stream"""
    a, u, post = "nil/crypto3/algebra/", {}, {}    # post: what else has to be included for the statement, after the header

    def add(path, stmt):
        u.setdefault(a + path, []).append(stmt)
    par = {}
    for n, h, t in gen_fields.FIELDS:
        t = "nil::crypto3::algebra::fields::" + t
        add("fields/%s.hpp" % h, "{ typedef %s F; o << F::modulus_bits << ' ' << F::modulus << ' ' << sizeof(typename F::value_type) << '\\n'; F::value_type x(5u); x = (x + x.squared()) * x.inversed() - -x; o << x << (x == x.pow(3u)) << '\\n'; }" % t)
        par.setdefault(h.split("/")[0], []).append(t)
    for p in ("alt_bn128", "bls12", "bn128", "mnt4", "mnt6", "edwards", "pallas", "vesta", "goldilocks64"):
        for t in par[p]:
            if p in ("pallas", "vesta") and "scalar" in t:
                continue    # the header does not declare the alias
            add("fields/arithmetic_params/%s.hpp" % p, "o << nil::crypto3::algebra::fields::arithmetic_params<%s>::multiplicative_generator << '\\n';" % t)
    for b, k in gen_ext.exts():
        t = "nil::crypto3::algebra::fields::%s<nil::crypto3::algebra::fields::%s>" % (gen_ext.TOWER[b][k - 1], gen_ext.B[b][1])
        add("fields/%s.hpp" % gen_ext.TOWER[b][k - 1], "o << %s::arity << sizeof(%s::value_type) << '\\n'; { %s::value_type x = %s::value_type::one(); x = (x + x.squared()) * x.inversed() - -x; o << x << (x == x) << '\\n'; }" % (t, t, t, t))
    for n, c in gen_curves.C.items():
        t = "nil::crypto3::algebra::curves::" + c["typ"]
        if c["header"] == "curve25519":
            continue    # what g1_type<> stands for there does not compile (DESIGN.md)
        s = "{ typedef %s::template %s_type<> G; o << G::value_bits << ' ' << sizeof(G::value_type) << '\\n'; auto p = G::value_type::one(); p.double_inplace(); p = p + (-p) - p; o << p.is_well_formed() << (p == p) << p.is_zero() << '\\n'; }" % (t, c["which"])
        add("curves/%s.hpp" % c["header"], s)
    for n in gen_pair.FULL:
        hdr, typ = gen_pair.P[n][2:4]
        t = "nil::crypto3::algebra::curves::" + typ
        add("pairing/%s.hpp" % hdr, "{ typedef nil::crypto3::algebra::pairing::pairing_policy<%s> P; auto p = P::precompute_g1::process(%s::g1_type<>::value_type::one()); auto q = P::precompute_g2::process(%s::g2_type<>::value_type::one()); o << (P::miller_loop::process(p, q) == P::double_miller_loop::process(p, q, p, q)) << P::final_exponentiation::process(P::miller_loop::process(p, q)) << '\\n'; }" % (t, t, t))
    for hdr, typ in (("alt_bn128", "alt_bn128<254>"), ("bls12", "bls12<381>"), ("edwards", "edwards<183>"), ("mnt4", "mnt4<298>"), ("mnt6", "mnt6<298>")):
        for k, m in (("wnaf", "wnaf_window_table"), ("multiexp", "fixed_base_exp_window_table")):
            for g in ("g1", "g2"):
                add("curves/params/%s/%s.hpp" % (k, hdr), "for (auto x : nil::crypto3::algebra::curves::%s_params<nil::crypto3::algebra::curves::%s::%s_type<>>::%s) o << x << ' ';" % (k, typ, g, m))
    n = "nil::crypto3::algebra::"
    bls = n + "curves::bls12<381>"
    field = ["fields/pallas/base_field.hpp"]
    curve = ["curves/bls12.hpp"]
    mexp = curve + ["curves/params/wnaf/bls12.hpp", "curves/params/multiexp/bls12.hpp"]
    lists = "typedef %s C; typedef C::g1_type<>::value_type E; typedef C::scalar_field_type::value_type S; std::vector<E> b {E::one(), E::one(), E::one()}; std::vector<S> s {S(5u), S(9u), S(1u)}; " % bls
    methods = ["multiexp_method_naive_plain", "multiexp_method_bos_coster", "multiexp_method_BDLO12"]

    def use(path, after, stmt, std=()):
        post[a + path] = "".join("#include <%s%s>\n" % (a, x) for x in after) + "".join("#include <%s>\n" % x for x in std)
        add(path, "{ " + stmt + " }")
    use("random_element.hpp", field + curve, "std::mt19937 g(7); o << %srandom_element<%sfields::pallas_base_field>(g) << %srandom_element<%s::gt_type>(g) << %srandom_element<%s::g1_type<>>(g).to_affine() << '\\n';" % (n, n, n, bls, n, bls))
    use("marshalling.hpp", [], "typedef nil::marshalling::bincode::field<%sfields::bls12_scalar_field<381>> M; std::vector<unsigned char> v(M::get_element_size()); M::field_element_to_bytes(%sfields::bls12_scalar_field<381>::value_type(9u), v.begin(), v.end()); o << (int) v[0] << M::field_element_from_bytes(v.begin(), v.end()).first << nil::marshalling::curve_element_serializer<%s>::point_to_octets_compress(%s::g2_type<>::value_type::one()).size() << '\\n';" % (n, n, bls, bls), ["vector"])
    use("multiexp/policies.hpp", mexp, lists + " ".join("o << %spolicies::%s::process(b.begin(), b.end(), s.begin(), s.end()).to_affine() << '\\n';" % (n, m) for m in methods))
    use("multiexp/multiexp.hpp", mexp, lists + " ".join("o << %smultiexp<%spolicies::%s>(b.begin(), b.end(), s.begin(), s.end(), 2).to_affine() << '\\n';" % (n, n, m) for m in methods)
        + " o << %smultiexp_with_mixed_addition<%spolicies::multiexp_method_BDLO12>(b.begin(), b.end(), s.begin(), s.end(), 1).to_affine() << %sget_exp_window_size<C::g1_type<>>(20) << '\\n';" % (n, n, n)
        + " auto t = %sget_window_table<C::g1_type<>>(255, 4, E::one()); o << %sbatch_exp<C::g1_type<>, C::scalar_field_type>(255, 4, t, s)[1].to_affine() << %sbatch_exp_with_coeff<C::g1_type<>, C::scalar_field_type>(255, 4, t, s[1], s)[1].to_affine() << '\\n';" % (n, n, n))
    use("multiexp/inner_product.hpp", mexp, lists + "typedef std::vector<S>::iterator I; o << %sinner_product<I>(s.begin(), s.end(), s.begin(), s.end()) << '\\n';" % n)
    use("wnaf.hpp", mexp, "typedef %s C; C::g1_type<>::value_type e = C::g1_type<>::value_type::one(); C::scalar_field_type::integral_type k(77u); o << %sfixed_window_wnaf_exp(3, e, k).to_affine() << %sopt_window_wnaf_exp(e, k, 255).to_affine() << '\\n';" % (bls, n, n))
    use("algorithms/pair.hpp", ["pairing/bls12.hpp"], "typedef %s C; auto p = C::g1_type<>::value_type::one(); auto q = C::g2_type<>::value_type::one(); o << %spair<C>(p, q) << %spair_reduced<C>(p, q) << %sdouble_miller_loop<C>(%sprecompute_g1<C>(p), %sprecompute_g2<C>(q), %sprecompute_g1<C>(p), %sprecompute_g2<C>(q)) << '\\n';" % ((bls,) + (n,) * 7), ["ostream"])
    use("algorithms/strxor.hpp", [], "std::vector<unsigned char> x {1, 2}, y {3, 5}, z(2); %sstrxor(x, y, z); %sstrxor(x.begin(), x.end(), y.begin(), y.end(), z.begin()); o << (int) z[0] << (int) z[1] << '\\n';" % (n, n), ["vector"])
    m, v = n + "matrix<double, 2, 2> m {{{1., 2.}, {4., 5.}}}; ", n + "vector<double, 3> v {{1., 2., 4.}}; "
    use("matrix/matrix.hpp", [], m + "o << m[1][0] << m.row(1)[0] << m.column(1)[0] << '\\n';")
    use("matrix/math.hpp", [], m + " ".join("o << %s << '\\n';" % e.replace("@", n) for e in ("@det(m)", "@rank(m)", "@inverse(m)[0][0]", "@rref(m)[0][0]", "@matmul(m, m)[0][0]", "@transpose(m)[1][0]", "@trace(m)", "@conj(m)[0][1]", "@real(m)[0][1]", "@imag(m)[0][1]", "@hermitian(m)[0][1]", "@vectmatmul(m.row(0), m)[1]", "@matvectmul(m, m.row(0))[1]", "@mars(m)", "@rref(m, 1e-9)[1][1]", "@kron(m, m)[3][3]", "@macs(m)")))
    use("matrix/utility.hpp", [], m + " ".join("o << %s << '\\n';" % e.replace("@", n) for e in ("@horzcat(m, m)[1][3]", "@vertcat(m, m)[3][1]", "@submat<1, 1>(m, 1, 1)[0][0]", "@identity<double, 2>[1][1]", "@fill<3, 2, double>(1.)[2][1]", "@swaprow(m, 0, 1)[0][0]", "@swapcol(m, 0, 1)[0][0]", "@cast<int>(m)[1][1]", "@get_identity<double, 3>()[2][2]", "@repmat<2, 2>(m)[3][3]", "@reshape<1, 4>(m)[0][3]", "@as_column(m.row(0))[1][0]", "@as_row(m.row(0))[0][1]")))
    use("matrix/operators.hpp", [], m + "o << (m + m)[0][0] << (m * 2.)[1][1] << (m == m) << (m * m)[0][0] << (2. * m)[0][1] << (m / m)[1][0] << (2. / m)[1][1] << (m + 1.)[0][0] << (1. + m)[1][0] << (m != m) << '\\n';")
    use("vector/vector.hpp", [], v + "o << v[2] << v.size << '\\n';")
    use("vector/math.hpp", [], v + " ".join("o << %s << '\\n';" % e.replace("@", n) for e in ("@dot(v, v)", "@conj(v)[0]", "@abs(v)[1]", "@real(v)[0]", "@max_index(v)", "@max(v)", "@min_index(v)", "@sum(v)", "@min(v)", "@imag(v)[0]", "@sqrt(v)[1]")))
    use("vector/utility.hpp", [], v + " ".join("o << %s << '\\n';" % e.replace("@", n) for e in ("@iota<4, double>(1.)[3]", "@fill<3, double>(2.)[1]", "@slice<2>(v, 1)[0]", "@concat(v, v)[5]", "@linspace<5, double>(0., 1.)[2]", "@cast<int>(v)[2]", "@accumulate(v, 0., [](double a, double b) { return a + b; })", "@rotate(v, 1)[0]", "@rotate(v, 2)[0]", "@generate<3>([](int i) { return 1. * i; })[2]")))
    use("vector/operators.hpp", [], v + "o << (v + v)[0] << (2. * v)[1] << (v == v) << (v * v)[2] << (v * 2.)[0] << (v / v)[1] << (2. / v)[1] << (v + 1.)[0] << (1. + v)[1] << (v != v) << '\\n';")
    use("scalar/math.hpp", [], " ".join("o << %s << '\\n';" % e.replace("@", n) for e in ("@sqrt(2.)", "@sqrt(2.f)", "@exponentiate(2., 7)", "@nthroot(7., 3)", "@abs(-3.)", "@conj(2.5)")))
    use("type_traits.hpp", field + ["fields/fp3.hpp"] + curve, " ".join("o << bool(%s::value) << '\\n';" % e.replace("@", n) for e in ("@is_field<@fields::pallas_base_field>", "@is_field<%s>" % bls, "@is_extended_field<%s::gt_type>" % bls, "@is_curve<%s>" % bls, "@is_curve_group<%s::g1_type<>>" % bls, "@is_g1_group_element<%s::g1_type<>::value_type>" % bls, "@is_field_element<@fields::pallas_base_field::value_type>")))
    return u, post


def make():
    rows = [l.split() for l in open(os.path.join(H, "headers.txt"))]
    rows = [(k, p) for k, p in rows if os.path.exists(os.path.join(REPO, "include", p))]    # a file that was moved is found through those that include it
    out = ["#define HDR_INCLUDE \"%s\"" % os.path.join(REPO, "include"), "#define HDR_SHIM \"%s\"" % os.path.join(os.path.dirname(H), "shim")]
    out.append('#define HDR_PCH "%s"' % common())
    out.append("static const char *HDR_DIGEST = R\"hdr(%s)hdr\";" % open(os.path.join(H, "hdr_digest.txt")).read())
    u, post = uses()
    out.append("struct Header { char kind; const char *path, *use, *after; };")
    out.append("static const Header HEADERS[] = {%s};" % ",\n".join("{'%s', \"%s\", R\"(%s)\", R\"(%s)\"}" % (k, p, "\n".join(u.get(p, [])), post.get(p, "")) for k, p in rows))
    out.append('#include "hdr.inc"')
    return "\n".join(out) + "\n"
