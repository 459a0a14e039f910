// C24: over small fields every residue, every element of an extension and every point can be counted.
#include "rnd.hpp"
#include <array>
using namespace rnd;
namespace alg = nil::crypto3::algebra;
template<std::uint64_t P> struct Small {    // a prime field in the shape the library asks for
    typedef std::uint64_t integral_type;
    typedef std::uint64_t modular_type;
    constexpr static const std::size_t arity = 1, modulus_bits = 16, number_bits = 16, value_bits = 16;
    constexpr static const integral_type modulus = P;
    struct value_type {
        typedef Small field_type;
        std::uint64_t v = 0;
        value_type() { }
        value_type(std::uint64_t x) : v(x % P) { }
        bool operator==(const value_type &o) const { return v == o.v; }
        static value_type one() { return 1; }
        static value_type zero() { return 0; }
    };
    static std::uint64_t index(const value_type &e) { return e.v; }
    static std::uint64_t size() { return P; }
};
template<class U, std::size_t D> struct Power {    // an extension of degree D
    typedef U underlying_field_type;
    typedef typename U::integral_type integral_type;
    typedef integral_type modular_type;
    struct extension_policy { };
    constexpr static const std::size_t arity = D * U::arity, modulus_bits = 16, number_bits = 16, value_bits = 16;
    constexpr static const integral_type modulus = U::modulus;
    struct value_type {
        typedef Power field_type;
        typedef std::array<typename U::value_type, D> data_type;
        data_type data;
        value_type() : data() { }
        value_type(const data_type &d) : data(d) { }
        bool operator==(const value_type &o) const { return data == o.data; }
    };
    static std::uint64_t index(const value_type &e) { std::uint64_t i = 0; for (auto &c : e.data) i = i * U::size() + U::index(c); return i; }
    static std::uint64_t size() { std::uint64_t s = 1; for (std::size_t i = 0; i < D; ++i) s *= U::size(); return s; }
};
template<std::uint64_t R, std::uint64_t Q> struct Group {    // a cyclic group of order R, "defined over" a field of Q elements
    struct curve_type { typedef Small<Q> base_field_type; typedef Small<R> scalar_field_type; };
    typedef Small<Q> field_type;
    constexpr static const std::size_t value_bits = 16;
    struct value_type {
        typedef Group group_type;
        typedef typename Group::field_type field_type;
        std::uint64_t v = 0;
        static value_type zero() { return value_type(); }
        static value_type one() { value_type e; e.v = 1; return e; }
        bool operator==(const value_type &o) const { return v == o.v; }
        friend value_type operator*(const typename Small<R>::value_type &s, const value_type &e) { value_type r; r.v = s.v * e.v % R; return r; }
        friend value_type operator*(const value_type &e, const typename Small<R>::value_type &s) { return s * e; }
    };
    static std::uint64_t index(const value_type &e) { return e.v; }
    static std::uint64_t size() { return R; }
};
template<class T> void even(vf::Src &S) {
    std::vector<std::uint64_t> c(T::size()), d(c.size() < 400 ? c.size() * c.size() : 0);
    std::size_t n = 40 * std::max(c.size(), d.size() / 4) + 2000;
    std::uint64_t seed = S.u64(~0ull);
    bool boosted = S.flip();
    S.note("seed ", seed, boosted ? " boost mt19937" : " std mt19937_64");
    S.nontrivial(true);
    std::uint64_t last = 0;
    auto run = [&](auto m) {
        for (std::size_t i = 0; i < n; ++i) {
            std::uint64_t x = T::index(alg::random_element<T>(m));
            CHECK(x < T::size(), "element " << x << " of " << T::size());
            ++c[x];
            if (!d.empty() && i) ++d[last * c.size() + x];
            last = x;
        }
    };
    if (boosted) run(boost::random::mt19937((std::uint32_t) seed)); else run(std::mt19937_64(seed));
    double chi;
    CHECK(!too_uneven(c, chi), "counts of " << n << " draws among " << T::size() << ": " << show(c) << " (chi squared " << chi << ")");
    if (!d.empty() && n / d.size() >= 5) CHECK(!too_uneven(d, chi), "counts of pairs that follow each other among " << T::size() << ": " << show(d) << " (chi squared " << chi << ")");
}
template<class T> void stream(vf::Src &S) {
    auto a = scripted<std::uint32_t>(S), b = a;
    auto x = alg::random_element<T>(a), y = alg::random_element<T>(b);
    CHECK(x == y && a == b, "the same stream gives " << T::index(x) << " and " << T::index(y));
    CHECK(T::index(x) < T::size(), "element " << T::index(x) << " of " << T::size());
}
#define TREG(n, ...) static vf::Reg ev_##n("even_" #n, even<__VA_ARGS__>, 6, 150, "every case counts many draws", 120), st_##n("stream_" #n, stream<__VA_ARGS__>, 200, 4000, "every case draws from a stream", 60);
TREG(p2, Small<2>) TREG(p3, Small<3>) TREG(p5, Small<5>) TREG(p7, Small<7>) TREG(p13, Small<13>) TREG(p31, Small<31>) TREG(p127, Small<127>) TREG(p257, Small<257>) TREG(p1009, Small<1009>)
TREG(p3_2, Power<Small<3>, 2>) TREG(p7_2, Power<Small<7>, 2>) TREG(p5_3, Power<Small<5>, 3>) TREG(p3_2_2, Power<Power<Small<3>, 2>, 2>) TREG(p2_3_2, Power<Power<Small<2>, 3>, 2>) TREG(p31_2, Power<Small<31>, 2>) TREG(p2_2_3_2, Power<Power<Power<Small<2>, 2>, 3>, 2>)
TREG(g7_5, Group<7, 5>) TREG(g5_7, Group<5, 7>) TREG(g13_127, Group<13, 127>) TREG(g127_113, Group<127, 113>) TREG(g31_29, Group<31, 29>)
