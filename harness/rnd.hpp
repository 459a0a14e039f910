// C24: random sources and counting.
#ifndef VERIF_RND_HPP
#define VERIF_RND_HPP
#include "tower.hpp"
#include <random>
#include <nil/crypto3/algebra/random_element.hpp>
namespace rnd {
using tw::V;
using zn::Z;
// a stream that begins with chosen words and goes on with a generator
template<class W> struct Scripted {
    typedef W result_type;
    static constexpr W (min)() { return 0; }
    static constexpr W (max)() { return ~W(0); }
    std::vector<W> script;
    std::mt19937_64 tail;
    std::size_t used = 0;
    W operator()() { std::size_t i = used++; return i < script.size() ? script[i] : (W) tail(); }
    bool operator==(const Scripted &o) const { return used == o.used && tail == o.tail; }
};
template<class W> Scripted<W> scripted(vf::Src &S) {
    Scripted<W> r;
    std::size_t n = S.one_in(3) ? 0 : S.u64(60);
    int kind = (int) S.u64(4);
    for (std::size_t i = 0; i < n; ++i)
        r.script.push_back(kind == 0 ? W(0) : kind == 1 ? ~W(0) : kind == 2 ? W(1) : kind == 3 ? (i & 1 ? ~W(0) : W(0)) : (W) (S.u64(~0ull)));
    r.tail.seed(S.u64(~0ull));
    S.note("stream of ", sizeof(W) * 8, "-bit words, ", n, " chosen (kind ", kind, ")");
    S.nontrivial(true);
    return r;
}
// distributions that always give their smallest or largest value
template<class I> struct Lowest { I a, b; Lowest(I x, I y) : a(x), b(y) { } template<class R> I operator()(R &r) { r(); return a; } };
template<class I> struct Highest { I a, b; Highest(I x, I y) : a(x), b(y) { } template<class R> I operator()(R &r) { r(); return b; } };
// far beyond any quantile that a sound generator reaches
inline bool too_uneven(const std::vector<std::uint64_t> &count, double &chi) {
    double n = 0, d = (double) count.size() - 1;
    for (auto c : count) n += (double) c;
    double e = n / (double) count.size();
    chi = 0;
    for (auto c : count) chi += ((double) c - e) * ((double) c - e) / e;
    return chi > d + 12 * std::sqrt(2 * d) + 60;
}
inline std::string show(const std::vector<std::uint64_t> &c) { std::ostringstream o; for (std::size_t i = 0; i < c.size() && i < 40; ++i) o << (i ? "," : "") << c[i]; return o.str(); }
}
#endif
