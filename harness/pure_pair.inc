// C29: calls on pairings.
#include "pure_grp.inc"
namespace pp {
namespace alg = nil::crypto3::algebra;
typedef PC::CurveT CT;
typedef pg::St<PC::G1, PC::G1::Default> S1;
typedef pg::St<PC::G2, PC::G2::Default> S2;
typedef CT::gt_type::value_type GT;
// the two stocks hold multiples of one point, so that bilinearity relates the results
#define OP(N, ...) static std::string N(unsigned a, unsigned b, unsigned k) { (void) k; S1::E P = S1::pts()[a]; S2::E Q = S2::pts()[b]; const S1::E P0 = P; const S2::E Q0 = Q; std::string r_; auto out = [&](const GT &v) { r_ += tw::str(tw::flat(v)); }; \
    __VA_ARGS__ pure::same(pg::all(P), pg::all(P0), "first"); pure::same(pg::all(Q), pg::all(Q0), "second"); return r_; }
OP(reduced, out(alg::pair_reduced<CT>(P, Q));)
OP(plain, out(alg::pair<CT>(P, Q));)
OP(first, r_ = vf::str(alg::precompute_g1<CT>(P) == alg::precompute_g1<CT>(S1::pts()[k]));)
OP(stages, auto p = alg::precompute_g1<CT>(P); auto q = alg::precompute_g2<CT>(Q); auto p0 = p; auto q0 = q; out(alg::miller_loop<CT>(p, q)); pure::same(p, p0, "first precomputation"); pure::same(q, q0, "second precomputation");)
OP(twice, auto p = alg::precompute_g1<CT>(P); auto q = alg::precompute_g2<CT>(Q); auto p2 = alg::precompute_g1<CT>(S1::pts()[k]); auto q2 = alg::precompute_g2<CT>(S2::pts()[(a + k) % 10]); out(alg::double_miller_loop<CT>(p, q, p2, q2));)
static std::vector<GT> &gts() { static std::vector<GT> v; return v; }
static void build() {
    const tw::Tower &t = PC::T();
    for (unsigned i = 0; i < 10; ++i) { tw::V v = t.zero(); for (std::size_t j = 0; j < v.size(); ++j) v[j] = (i / 2 * 7919 + j * j * 31 + 3) % 1000; if (i & 1) v = t.neg(v); gts().push_back(tw::elt<GT>(v)); }
}
OP(power, GT x = gts()[k]; const GT x0 = x; out(alg::final_exponentiation<CT>(x)); pure::same(x, x0, "element");)
static int reg = [] {
    pure::prepare().push_back(build);
    auto add = [&](const char *o, pure::Fn f) { pure::ops().push_back(pure::Op {std::string(PC::name) + "." + o, f}); };
#undef A_
#define A_(N) add(#N, N);
    A_(reduced) A_(plain) A_(first) A_(stages) A_(twice) A_(power)
    return 0;
}();
#undef OP
}    // namespace pp
#ifdef PURE_BLS
#include <nil/crypto3/algebra/marshalling.hpp>
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
namespace pb {
namespace det = nil::crypto3::algebra::curves::detail;
typedef nil::marshalling::curve_element_serializer<rc::cv::bls12<381>> Ser;
typedef nil::crypto3::algebra::curves::bls12_381 B;
template<class C> std::string hex(const C &c) { std::string s; char t[3]; for (auto x : c) { std::snprintf(t, 3, "%02x", (unsigned) (std::uint8_t) x); s += t; } return s; }
static std::string octets1(unsigned a, unsigned b, unsigned) {
    auto P = pp::S1::pts()[a]; const auto P0 = P;
    auto c = Ser::point_to_octets_compress(P); auto u = Ser::point_to_octets(P);
    std::string r = hex(c) + "|" + hex(u);
    r += pg::all(b % 2 ? Ser::octets_to_g1_point(c) : Ser::octets_to_g1_point(u));
    pure::same(pg::all(P), pg::all(P0), "point");
    return r;
}
static std::string octets2(unsigned a, unsigned b, unsigned) {
    auto P = pp::S2::pts()[a]; const auto P0 = P;
    auto c = Ser::point_to_octets_compress(P); auto u = Ser::point_to_octets(P);
    std::string r = hex(c) + "|" + hex(u);
    r += pg::all(b % 2 ? Ser::octets_to_g2_point(c) : Ser::octets_to_g2_point(u));
    pure::same(pg::all(P), pg::all(P0), "point");
    return r;
}
static std::string map1(unsigned a, unsigned b, unsigned k) {
    auto x = pp::S1::pts()[a].X; if (b % 3 == 0) x = -x; if (k == 0) x = x - x;
    return pg::all(det::map_to_curve<B::g1_type<>>::process(x));
}
static std::string map2(unsigned a, unsigned b, unsigned k) {
    auto x = pp::S2::pts()[a].X; if (b % 3 == 0) x = -x; if (k == 0) x = x - x;
    return pg::all(det::map_to_curve<B::g2_type<>>::process(x));
}
static pure::RegOp r1("bls381.octets1", octets1), r2("bls381.octets2", octets2), r3("bls381.map1", map1), r4("bls381.map2", map2);
}    // namespace pb
#endif
