// C29: calls on points.
#include <nil/crypto3/algebra/wnaf.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/policies.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/curves/detail/subgroup_check.hpp>
#include "pure.hpp"
namespace pg {
namespace alg = nil::crypto3::algebra;
namespace pol = nil::crypto3::algebra::policies;
template<class T, class = void> struct complete : std::false_type { };
template<class T> struct complete<T, std::void_t<decltype(sizeof(T))>> : std::true_type { };
template<class E> std::string put(const E &v) {    // the exact representation
    std::ostringstream o;
    auto one = [&](const auto &c) { o << tw::str(tw::flat(c)); };
    one(v.X); one(v.Y);
    return o.str();
}
#define HAS(N, X) template<class E, class = void> struct N : std::false_type { }; template<class E> struct N<E, std::void_t<decltype(X)>> : std::true_type { };
#define DE std::declval<E &>()
#define DC std::declval<const E &>()
HAS(has_Z_, DE.Z) HAS(has_T_, DE.T) HAS(has_mixed_, DE.mixed_add(DC)) HAS(has_iadd_, DE += DC) HAS(has_isub_, DE -= DC) HAS(has_sub_, DC - DC)
HAS(has_wf_, DC.is_well_formed()) HAS(has_aff_, DC.to_affine()) HAS(has_proj_, DC.to_projective()) HAS(shows_, std::declval<std::ostream &>() << DC)
template<class E> std::string all(const E &v) {
    std::string s = put(v);
    if constexpr (has_Z_<E>::value) s += tw::str(tw::flat(v.Z));
    if constexpr (has_T_<E>::value) s += tw::str(tw::flat(v.T));
    return s;
}
// the stock: related points and several representations of the same one
template<class G, class Co> struct St {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    typedef typename G::CurveT::scalar_field_type Fr;
    typedef typename Fr::value_type FV;
    typedef typename Fr::integral_type I;
    static std::vector<E> &pts() { static std::vector<E> v; return v; }
    static std::vector<FV> &sc() { static std::vector<FV> v; return v; }
    static std::vector<I> &in() { static std::vector<I> v; return v; }
    static void build() {
        const rc::Curve &c = A::C();
        std::uint64_t rec[4096];
        std::size_t n = 0;
        vf::Src S;
        S.rec = rec;
        S.rec_n = &n;
        auto scaled = [&](const rc::Pt &p) { S.s0 = 77; S.s1 = 78; S.drawn = 0; return A::rep(S, p, false); };    // always the same third coordinate
        rc::Pt g = c.generator(), x = c.stock()[4], y = c.mul(12345, g);
        pts() = {A::rep(S, g, true), A::rep(S, c.neg(g), true), scaled(g), scaled(c.neg(g)), E(), A::rep(S, c.mul(2, g), true), scaled(x), scaled(c.neg(x)), A::rep(S, y, true), scaled(y)};
        rc::Z r = c.r, k = zn::mod(rc::Z("9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95", 16), r);
        for (rc::Z z : {rc::Z(0), rc::Z(1), rc::Z(2), rc::Z(r - 1), k, rc::Z(r - k), rc::Z(5), rc::Z(rc::Z(1) << (zn::bits(r) - 1)), zn::mod(k * k, r), zn::mod(k * 3, r)}) {
            z = zn::mod(z, r);
            sc().push_back(FV(zn::to_num<I>(z)));
            in().push_back(zn::to_num<I>(z));
        }
    }
};
#define ARGS_ typedef St<G, Co> T; typedef typename T::E E; typedef typename T::FV FV; (void) a; (void) b; (void) k; E P = T::pts()[a], Q = T::pts()[b]; const E P0 = P, Q0 = Q; FV f = T::sc()[k]; auto n = T::in()[k]; (void) n; (void) f;
#define KEPT_ pure::same(all(P), all(P0), "first"); pure::same(all(Q), all(Q0), "second"); pure::same(f, T::sc()[k], "scalar");
#define OP(N, ...) template<class G, class Co> std::string N(unsigned a, unsigned b, unsigned k) { ARGS_ std::string r_; __VA_ARGS__ KEPT_ return r_; }
OP(sum, r_ = all(P + Q);)
OP(sum_in, E v = P; if constexpr (has_iadd_<E>::value) v += Q; else v = v + Q; r_ = all(v);)
OP(dif, if constexpr (has_sub_<E>::value) r_ = all(P - Q);)
OP(dif_in, E v = P; if constexpr (has_isub_<E>::value) v -= Q; r_ = all(v);)
OP(neg, r_ = all(-P);)
OP(twice, E v = P; v.double_inplace(); r_ = all(v);)
OP(mixed, if constexpr (has_mixed_<E>::value) { E v = P; E w = b % 2 ? T::pts()[0] : T::pts()[8]; v.mixed_add(w); r_ = all(v); })
OP(asks, r_ = std::to_string(P.is_zero()) + std::to_string(P == Q) + std::to_string(P != Q); if constexpr (has_wf_<E>::value) r_ += std::to_string(P.is_well_formed());)
OP(affine, if constexpr (has_aff_<E>::value) r_ = all(P.to_affine());)
OP(projective, if constexpr (has_proj_<E>::value) r_ = all(P.to_projective());)
OP(text, if constexpr (shows_<E>::value) r_ = vf::str(P);)
OP(fixed, r_ = all(E::zero()) + all(E::one()) + all(E());)
OP(times, r_ = all(P * f);)
OP(times_in, E v = P; v *= f; r_ = all(v);)
OP(times_int, r_ = all(P * n);)
OP(times_front, if constexpr (!G::edw2) r_ = all(f * P);)
OP(subgroup, if constexpr (!G::edw2) r_ = std::to_string(rc::cv::detail::subgroup_check(P));)
OP(window, if constexpr (!G::edw2) r_ = all(alg::fixed_window_wnaf_exp(1 + b % 5, P, n));)
OP(automatic, if constexpr (complete<rc::cv::wnaf_params<typename G::template group<Co>>>::value && !G::edw2) r_ = all(alg::opt_window_wnaf_exp(P, n, T::A::C().r.get_str(2).size()));)
OP(table, typedef typename G::template group<Co> Gr; auto t = alg::get_window_table<Gr>(20 + b, 1 + b % 4, P); for (auto &row : t) for (auto &e : row) r_ += all(e);
    r_ += all(alg::windowed_exp<Gr, typename T::Fr>(20 + b, 1 + b % 4, t, FV(k * 977u)));
    if constexpr (complete<rc::cv::multiexp_params<Gr>>::value) r_ += std::to_string(alg::get_exp_window_size<Gr>(k * 1000));)
template<class M, class G, class Co> std::string many(unsigned a, unsigned b, unsigned k) {
    ARGS_
    std::vector<E> v; std::vector<FV> s;
    for (unsigned i = 0; i < 2 + a; ++i) { v.push_back(T::pts()[(b + i * (1 + b % 3)) % 10]); s.push_back(T::sc()[(k + i) % 10]); }
    auto v0 = v; auto s0 = s;
    std::string r = all(alg::multiexp<M>(v.begin(), v.end(), s.begin(), s.end(), 1 + k % 3)) + all(alg::multiexp_with_mixed_addition<M>(v.begin(), v.end(), s.begin(), s.end(), 1 + k % 3));
    for (std::size_t i = 0; i < v.size(); ++i) { pure::same(all(v[i]), all(v0[i]), "bases"); pure::same(s[i], s0[i], "scalars"); }
    return r;
}
OP(naive, if constexpr (!G::edw2) r_ = many<pol::multiexp_method_naive_plain, G, Co>(a, b, k);)
OP(bdlo, r_ = many<pol::multiexp_method_BDLO12, G, Co>(a, b, k);)
OP(bos, if constexpr (complete<rc::cv::wnaf_params<typename G::template group<Co>>>::value && !G::edw2) r_ = many<pol::multiexp_method_bos_coster, G, Co>(a, b, k);)
template<class G, class Co> struct RegGroup {
    explicit RegGroup(const char *n) {
        pure::prepare().push_back(St<G, Co>::build);
        auto add = [&](const char *o, pure::Fn f) { pure::ops().push_back(pure::Op {std::string(n) + "." + o, f}); };
#define A_(N) add(#N, N<G, Co>);
        A_(sum) A_(sum_in) A_(dif) A_(dif_in) A_(neg) A_(twice) A_(mixed) A_(asks) A_(affine) A_(projective) A_(text) A_(fixed) A_(times) A_(times_in) A_(times_int) A_(times_front)
        if constexpr (std::is_same<Co, typename G::Default>::value) { A_(subgroup) A_(window) A_(automatic) A_(table) A_(naive) A_(bdlo) A_(bos) }
    }
};
#undef OP
#undef HAS
}    // namespace pg
#define REG29(G, Co) static pg::RegGroup<G, rc::co::Co> r29_##G##_##Co(#G "_" #Co);
GROUP_LIST(REG29)
