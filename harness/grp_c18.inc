// C18: multi-exponentiation on the library's curves.
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/policies.hpp>
namespace alg = nil::crypto3::algebra;
namespace pol = nil::crypto3::algebra::policies;
template<class T, class = void> struct complete : std::false_type { };
template<class T> struct complete<T, std::void_t<decltype(sizeof(T))>> : std::true_type { };

template<class G, class Co> void multi(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    typedef typename G::CurveT::scalar_field_type Fr;
    typedef typename Fr::value_type FV;
    typedef typename Fr::integral_type I;
    const rc::Curve &c = A::C();
    // bases are known multiples of three points of the subgroup, so the sum needs few reference multiplications
    static std::vector<rc::Pt> pool;
    static std::vector<rc::Z> m;
    static std::vector<rc::V> none;
    if (pool.empty())
        for (int i = 0; i < 24; ++i) {
            rc::Z f = i < 2 ? rc::Z(i) : i == 2 ? rc::Z(c.r - 1) : i < 8 ? rc::Z(i - 1) : zn::mod(rc::Z(rc::Z("9e3779b97f4a7c15f39cc0605cedc834", 16) * (i * i + 1) * c.h), c.r);
            m.push_back(f);
            pool.push_back(c.mul(f, c.generator()));
        }
    std::size_t n = S.one_in(10) ? S.u64(70) : S.u64(9);
    std::vector<E> v;
    std::vector<FV> s;
    rc::Z sum = 0, prev = 0;
    std::size_t zeros = 0, ones = 0, same = 0;
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t j = S.index(pool.size());
        rc::Z k;
        switch (S.u64(7)) {
            case 0: k = 0; break;
            case 1: k = 1; break;
            case 2: k = prev; ++same; break;
            case 3: k = c.r - 1 - zn::u(S.u64(2)); break;
            case 4: k = zn::draw_bits(S, 1 + S.index(40)); k = zn::mod(k, c.r); break;
            default: k = zn::draw_mod(S, c.r);
        }
        prev = k;
        zeros += k == 0;
        ones += k == 1;
        v.push_back(A::rep(S, pool[j], S.flip()));
        s.push_back(FV(zn::to_num<I>(k)));
        sum += m[j] * k;
    }
    bool allzero = n && S.one_in(20);
    if (allzero) { sum = 0; for (auto &f : s) f = FV::zero(); }
    std::size_t chunks = S.flip() ? S.u64(4) : S.u64(n + 3);
    int method = (int) S.u64(5);
    bool bos = complete<rc::cv::wnaf_params<typename G::template group<Co>>>::value && !G::edw2;
    if (!bos && (method == 2 || method == 5)) method -= 1;
    if (G::edw2 && (method == 0 || method == 3)) method += 1;
    S.note(G::name, " n=", n, " chunks ", chunks, " method ", method, " zeros ", zeros, " ones ", ones, " all zero ", allzero);
    S.nontrivial(n >= 2 && !allzero);
    E got;
    std::vector<E> kv = v;
    std::vector<FV> ks = s;
    const char *how = "";
    switch (method) {
        case 0: how = "naive"; if constexpr (!G::edw2) got = alg::multiexp<pol::multiexp_method_naive_plain>(v.begin(), v.end(), s.begin(), s.end(), chunks); break;
        case 1: how = "BDLO12"; got = alg::multiexp<pol::multiexp_method_BDLO12>(v.begin(), v.end(), s.begin(), s.end(), chunks); break;
        case 2: how = "Bos-Coster"; if constexpr (complete<rc::cv::wnaf_params<typename G::template group<Co>>>::value && !G::edw2) got = alg::multiexp<pol::multiexp_method_bos_coster>(v.begin(), v.end(), s.begin(), s.end(), chunks); break;
        case 3: how = "mixed naive"; if constexpr (!G::edw2) got = alg::multiexp_with_mixed_addition<pol::multiexp_method_naive_plain>(v.begin(), v.end(), s.begin(), s.end(), chunks); break;
        case 4: how = "mixed BDLO12"; got = alg::multiexp_with_mixed_addition<pol::multiexp_method_BDLO12>(v.begin(), v.end(), s.begin(), s.end(), chunks); break;
        default: how = "mixed Bos-Coster"; if constexpr (complete<rc::cv::wnaf_params<typename G::template group<Co>>>::value && !G::edw2) got = alg::multiexp_with_mixed_addition<pol::multiexp_method_bos_coster>(v.begin(), v.end(), s.begin(), s.end(), chunks); break;
    }
    rc::Pt want = c.mul(zn::mod(sum, c.r), c.generator()), b = A::back(got);
    CHECK(b == want, how << " of " << n << " elements in " << chunks << " chunks is " << b << ", not " << want << " on " << G::name);
    CHECK(v == kv && s == ks, how << " changed its arguments");
}
#define REG18(G, Co) static vf::Reg r1_##G##_##Co(#G "_" #Co "_multi", multi<G, rc::co::Co>, 40, 6000, "at least two elements, not all scalars zero", 120);
GROUP_LIST(REG18)
