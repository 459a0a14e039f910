// C24: random elements of the library's fields.
#include "rnd.hpp"
using namespace rnd;
namespace alg = nil::crypto3::algebra;
template<class F> struct Rn {
    typedef typename F::value_type E;
    typedef typename F::integral_type I;
    static const Z &p() { static Z v = zn::from_num(F::modulus); return v; }
    static V val(const E &e) { return tw::flat(e); }
    template<class R> static void source(vf::Src &S, const R &start) {
        R r = start, s = start;
        E e = alg::random_element<F>(r), f = alg::random_element<F>(s);
        V v = val(e);
        for (std::size_t i = 0; i < v.size(); ++i) CHECK(v[i] < p(), "coefficient " << i << " is " << zn::hex(v[i]) << " modulo " << zn::hex(p()));
        CHECK(e == tw::elt<E>(v), "the element is not the canonical element " << tw::str(v) << " modulo " << zn::hex(p()));
        CHECK(val(f) == v, "the same stream gives " << tw::str(v) << " and " << tw::str(val(f)) << " modulo " << zn::hex(p()));
        CHECK(r == s, "the same stream is left in two states, modulo " << zn::hex(p()));
        CHECK(!(r == start), "drawing an element takes nothing from the stream, modulo " << zn::hex(p()));
        E g = alg::random_element<F>(R(start));    // a temporary source
        CHECK(val(g) == v, "the same stream as a temporary gives another element, modulo " << zn::hex(p()));
    }
    static void stream(vf::Src &S) {
        switch (S.u64(3)) {
            case 0: return source(S, scripted<std::uint32_t>(S));
            case 1: return source(S, scripted<std::uint64_t>(S));
            case 2: { boost::random::mt19937 m((std::uint32_t) S.u64(~0u)); S.note("boost mt19937"); S.nontrivial(true); return source(S, m); }
            default: { std::mt19937_64 m(S.u64(~0ull)); S.note("std mt19937_64"); S.nontrivial(true); return source(S, m); }
        }
    }
    static void extremes(vf::Src &S) {
        boost::random::mt19937 m((std::uint32_t) S.u64(~0u));
        S.nontrivial(true);
        V lo = val(alg::random_element<F, Lowest<I>>(m)), hi = val(alg::random_element<F, Highest<I>>(m));
        for (auto &c : lo) CHECK(c == 0, "a distribution that gives its smallest value gives " << tw::str(lo) << " modulo " << zn::hex(p()));
        for (auto &c : hi) CHECK(c == p() - 1, "a distribution that gives its largest value gives " << tw::str(hi) << " modulo " << zn::hex(p()));
        E e = alg::random_element<F>();    // the default source
        V v = val(e);
        for (auto &c : v) CHECK(c < p(), "the default source gives " << tw::str(v));
        CHECK(e == tw::elt<E>(v), "the default source gives another form of " << tw::str(v));
        CHECK(!(e == alg::random_element<F>() && e == alg::random_element<F>()), "the default source gives the same element again, " << tw::str(v));
    }
    // many elements of one stream: every coefficient, and every two of them, even
    static void even(vf::Src &S) {
        std::uint64_t seed = S.u64(~0ull);
        S.note("seed ", seed, " modulo ", zn::hex(p()));
        S.nontrivial(true);
        std::mt19937_64 m(seed);
        const std::size_t n = 400;
        std::size_t k = tw::Flat<E>::n;
        std::vector<std::vector<std::uint64_t>> high(k, std::vector<std::uint64_t>(8)), low = high, joint(k * k, std::vector<std::uint64_t>(16)), jlow = joint;
        std::vector<std::uint64_t> succ(16);
        std::size_t before = 0;
        Z p8 = p() / 8 + 1, p4 = p() / 4 + 1;
        std::vector<V> seen;
        for (std::size_t t = 0; t < n; ++t) {
            V v = val(alg::random_element<F>(m));
            std::vector<std::size_t> q, l;
            for (std::size_t i = 0; i < k; ++i) {
                Z h = v[i] / p8;
                ++high[i][h.get_ui()];
                h = v[i] & 7;
                ++low[i][h.get_ui()];
                h = v[i] / p4;
                q.push_back(h.get_ui());
                h = v[i] & 3;
                l.push_back(h.get_ui());
            }
            for (std::size_t i = 0; i < k; ++i) for (std::size_t j = 0; j < i; ++j) { ++joint[i * k + j][q[i] * 4 + q[j]]; ++jlow[i * k + j][l[i] * 4 + l[j]]; }
            if (t) ++succ[before * 4 + q[0]];
            before = q[0];
            seen.push_back(v);
        }
        double chi;
        for (std::size_t i = 0; i < k; ++i) {
            CHECK(!too_uneven(high[i], chi), "coefficient " << i << " by size: " << show(high[i]) << " modulo " << zn::hex(p()));
            CHECK(!too_uneven(low[i], chi), "coefficient " << i << " modulo 8: " << show(low[i]) << " modulo " << zn::hex(p()));
            for (std::size_t j = 0; j < i; ++j) {
                CHECK(!too_uneven(joint[i * k + j], chi), "coefficients " << i << " and " << j << " together by size: " << show(joint[i * k + j]) << " modulo " << zn::hex(p()));
                CHECK(!too_uneven(jlow[i * k + j], chi), "coefficients " << i << " and " << j << " together modulo 4: " << show(jlow[i * k + j]) << " modulo " << zn::hex(p()));
            }
        }
        CHECK(!too_uneven(succ, chi), "elements that follow each other: " << show(succ) << " modulo " << zn::hex(p()));
        std::sort(seen.begin(), seen.end());
        if (p() > 1000000000) for (std::size_t i = 1; i < n; ++i) CHECK(zn::bits(p()) < 100 || seen[i] != seen[i - 1], "element " << tw::str(seen[i]) << " drawn twice among " << n);
    }
};
#define FREG(n, ...) static vf::Reg st_##n("stream_" #n, Rn<__VA_ARGS__>::stream, 200, 4000, "every case draws from a stream", 60), ex_##n("extremes_" #n, Rn<__VA_ARGS__>::extremes, 5, 40, "every case draws", 60), ev_##n("even_" #n, Rn<__VA_ARGS__>::even, 8, 200, "every case draws", 120);
#define XREG(X) FREG(ext_##X, X::F)
#ifdef FIELD_LIST
FIELD_LIST(FREG)
#endif
#ifdef EXT_LIST
EXT_LIST(XREG)
#endif
