// C26: low-level helpers
#define BOOST_ENABLE_ASSERT_HANDLER
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cstdint>
#include <deque>
#include <initializer_list>
#include <limits>
#include <list>
#include <numeric>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/range/concepts.hpp>
namespace boost {
struct Asserted { };
[[noreturn]] inline void assertion_failed(char const *, char const *, char const *, long) { throw Asserted(); }
[[noreturn]] inline void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { throw Asserted(); }
}
#include <boost/multiprecision/cpp_int.hpp>
namespace boost { namespace multiprecision { namespace backends { template<class B> struct modular_params_rt; } } }
#include <nil/crypto3/detail/make_array.hpp>
#include <nil/crypto3/detail/make_uint_t.hpp>
#include <nil/crypto3/detail/octet.hpp>
#include <nil/crypto3/detail/same_value.hpp>
#include <nil/crypto3/detail/state_adder.hpp>
#include <nil/crypto3/detail/unbounded_shift.hpp>
#include <nil/crypto3/algebra/algorithms/strxor.hpp>
#include <nil/crypto3/algebra/totient.hpp>
#include "verif.hpp"
namespace det = nil::crypto3::detail;
namespace alg = nil::crypto3::algebra;
typedef unsigned __int128 u128;

// ---- array builder ------------------------------------------------------------------------------
template<std::size_t N, class C> static void array_of(const C &c, const char *kind) {
    auto before = c;
    auto a = nil::crypto3::make_array<N>(c.begin(), c.end());
    static_assert(std::is_same<decltype(a), std::array<typename C::value_type, N>>::value, "");
    CHECK(c == before, "make_array changed its input");
    std::size_t i = 0;
    for (auto &x : c) { CHECK(a[i] == x, "make_array<" << N << "> of a " << kind << " has another element at position " << i); ++i; }
}
template<std::size_t N> static void arrays(vf::Src &S) {
    std::vector<int> v(N);
    for (auto &x : v) x = (int) S.integer(1000);
    S.note("make_array<", N, ">");
    S.nontrivial(N > 1);
    array_of<N>(v, "vector");
    array_of<N>(std::deque<int>(v.begin(), v.end()), "deque");
    std::string s(N, 'a');
    for (auto &x : s) x = (char) S.u64(255);
    array_of<N>(s, "string");
    std::vector<std::string> t(N);
    for (auto &x : t) x = std::string((std::size_t) S.u64(3), (char) ('a' + S.u64(25)));
    array_of<N>(t, "vector of strings");
    int raw[N];
    for (std::size_t i = 0; i < N; ++i) raw[i] = v[i];
    auto a = nil::crypto3::make_array<N>(raw, raw + N);
    for (std::size_t i = 0; i < N; ++i) CHECK(a[i] == v[i], "make_array of a plain array");
}
PROP(make_array, 20000, 400000, "more than one element") {
    switch (S.u64(7)) {
        case 0: return arrays<1>(S);
        case 1: return arrays<2>(S);
        case 2: return arrays<3>(S);
        case 3: return arrays<5>(S);
        case 4: return arrays<8>(S);
        case 5: return arrays<16>(S);
        case 6: return arrays<33>(S);
        default: return arrays<64>(S);
    }
}
// ---- equal values -------------------------------------------------------------------------------
// the value of a list of equal values; unequal lists are refused by the compiler (a static_assert, so not observable here)
PROP(same_value, 2000, 2000, "more than one value") {
    S.nontrivial();
    int got = 0, want = 0;
    switch (S.u64(5)) {
        case 0: got = alg::detail::all_same_value<int, -3>::value; want = -3; break;
        case 1: got = alg::detail::all_same_value<int, 7, 7>::value; want = 7; break;
        case 2: got = alg::detail::all_same_value<int, 5, 5, 5>::value; want = 5; break;
        case 3: got = alg::detail::all_same_value<std::size_t, 9, 9, 9, 9, 9>::value; want = 9; break;
        case 4: got = alg::detail::all_same_value<bool, true, true>::value; want = 1; break;
        default: got = alg::detail::all_same_value<char, 'x', 'x', 'x'>::value; want = 'x';
    }
    S.note("all_same_value ", want);
    CHECK(got == want, "all_same_value gives " << got);
}
// ---- fixed-width integers -----------------------------------------------------------------------
template<std::size_t Size> using U = typename boost::uint_t<Size>::exact;
template<std::size_t Size, class I> static void extract(vf::Src &S) {
    I v = (I) S.u64(std::numeric_limits<I>::max());
    std::size_t p = S.index(sizeof(I));
    auto r = det::extract_uint_t<Size>(v, p);
    static_assert(std::is_same<decltype(r), U<Size>>::value && std::numeric_limits<decltype(r)>::digits == Size, "");
    std::uint64_t want = (std::uint64_t) v;
    for (std::size_t k = p + 1; k < sizeof(I); ++k) want /= 256;    // byte p counted from the most significant one is the lowest of the rest
    if (Size < 64) want %= std::uint64_t(1) << (Size % 64);
    S.note("extract_uint_t<", Size, ">(", +v, ", ", p, ")");
    S.nontrivial(v > 255);
    CHECK(r == want, "extract_uint_t<" << Size << ">(" << +v << ", " << p << ") gives " << +r << " instead of " << want);
}
template<std::size_t Size, class T, std::size_t N> static void pack(vf::Src &S) {
    T v[4] = {};
    u128 want = 0;
    for (std::size_t i = 0; i < N; ++i) { v[i] = (T) S.u64(std::numeric_limits<T>::max()); want = (want << std::numeric_limits<T>::digits) | v[i]; }
    want &= (((u128) 1) << Size) - 1;
    U<Size> a = 0, b = 0;
    if constexpr (N == 1) { a = det::make_uint_t<Size>(v[0]); b = det::make_uint_t<Size, T>({v[0]}); }
    if constexpr (N == 2) { a = det::make_uint_t<Size>(v[0], v[1]); b = det::make_uint_t<Size, T>({v[0], v[1]}); }
    if constexpr (N == 3) { a = det::make_uint_t<Size>(v[0], v[1], v[2]); b = det::make_uint_t<Size, T>({v[0], v[1], v[2]}); }
    if constexpr (N == 4) { a = det::make_uint_t<Size>(v[0], v[1], v[2], v[3]); b = det::make_uint_t<Size, T>({v[0], v[1], v[2], v[3]}); }
    S.note("make_uint_t<", Size, "> of ", N, " values of ", sizeof(T), " bytes: ", +v[0], " ", +v[1], " ", +v[2], " ", +v[3]);
    S.nontrivial(N > 1);
    CHECK(a == (std::uint64_t) want && b == (std::uint64_t) want, "make_uint_t<" << Size << "> gives " << +a << " and " << +b << " instead of " << (std::uint64_t) want);
}
PROP(fixed_width, 60000, 2000000, "more than one unit takes part") {
    typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64;
    switch (S.u64(17)) {
        case 0: return extract<8, u8>(S);
        case 1: return extract<8, u16>(S);
        case 2: return extract<8, u32>(S);
        case 3: return extract<8, u64>(S);
        case 4: return extract<16, u64>(S);
        case 5: return extract<32, u64>(S);
        case 6: return extract<64, u64>(S);
        case 7: return extract<16, u32>(S);
        case 8: return pack<8, u8, 1>(S);
        case 9: return pack<16, u8, 2>(S);
        case 10: return pack<32, u8, 4>(S);
        case 11: return pack<64, u8, 4>(S);
        case 12: return pack<32, u16, 2>(S);
        case 13: return pack<64, u16, 4>(S);
        case 14: return pack<64, u32, 2>(S);
        case 15: return pack<32, u8, 3>(S);
        case 16: return pack<16, u8, 4>(S);
        default: return pack<64, u16, 3>(S);
    }
}
// ---- shifts and masks ---------------------------------------------------------------------------
static u128 mask(std::size_t n) { return n == 0 ? 0 : n >= 128 ? ~(u128) 0 : (((u128) 1) << n) - 1; }
template<class T, int K> static void fixed_shift(T x) {
    constexpr std::size_t W = sizeof(T) * CHAR_BIT;
    T l = det::unbounded_shl<K>(x), r = det::unbounded_shr<K>(x);
    CHECK(l == (T) (((std::size_t) K >= W ? (u128) 0 : ((u128) x) << K) & mask(W)), "unbounded_shl<" << K << ">(" << +x << ") gives " << +l);
    CHECK(r == (T) ((std::size_t) K >= W ? (u128) 0 : ((u128) x) >> K), "unbounded_shr<" << K << ">(" << +x << ") gives " << +r);
    T b = det::low_bits<K>(x);
    CHECK(b == (T) (x & mask(K)), "low_bits<" << K << ">(" << +x << ") gives " << +b);
    if constexpr ((std::size_t) K <= W) {
        T d = det::low_bits<(std::size_t) K, W>(x);
        CHECK(d == (T) (x & mask(K)), "low_bits<" << K << ", " << W << ">(" << +x << ") gives " << +d);
    }
}
template<class T> static void shifts(vf::Src &S) {
    constexpr std::size_t W = sizeof(T) * CHAR_BIT;
    T x = (T) S.u64(std::numeric_limits<T>::max());
    if (S.one_in(4)) x = (T) ~(T) x;
    std::size_t n = S.index(W), far = W + S.u64(200);
    S.note("shifts of ", +x, " (", W, " bits) by ", n);
    S.nontrivial(n != 0);
    CHECK(det::unbounded_shl(x, n) == (T) ((((u128) x) << n) & mask(W)), "unbounded_shl(" << +x << ", " << n << ")");
    CHECK(det::unbounded_shr(x, n) == (T) (x >> n), "unbounded_shr(" << +x << ", " << n << ")");
    CHECK(det::unbounded_shr(x, far) == 0, "unbounded_shr(" << +x << ", " << far << ")");
    T lo = det::low_bits<W>(x, n), hi = det::high_bits<W>(x, n);
    CHECK(lo == (T) (x & mask(n)), "low_bits<" << W << ">(" << +x << ", " << n << ") gives " << +lo);
    CHECK(hi == (T) (x & (mask(W) & ~mask(W - n))), "high_bits<" << W << ">(" << +x << ", " << n << ") gives " << +hi);
    CHECK(det::low_bits<W>(x, far) == x && det::high_bits<W>(x, far) == x, "all bits of " << +x);
    CHECK((T) (det::high_bits<W>(x, n) | det::low_bits<W>(x, W - n)) == x, "high and low bits of " << +x << " do not make it up");
    switch (S.u64(9)) {
        case 0: return fixed_shift<T, 0>(x);
        case 1: return fixed_shift<T, 1>(x);
        case 2: return fixed_shift<T, 3>(x);
        case 3: return fixed_shift<T, 7>(x);
        case 4: return fixed_shift<T, 8>(x);
        case 5: return fixed_shift<T, 15>(x);
        case 6: return fixed_shift<T, 31>(x);
        case 7: return fixed_shift<T, 32>(x);
        case 8: return fixed_shift<T, 63>(x);
        default: return fixed_shift<T, 65>(x);
    }
}
PROP(shifts_and_masks, 60000, 2000000, "shift by at least one bit") {
    switch (S.u64(3)) {
        case 0: return shifts<std::uint8_t>(S);
        case 1: return shifts<std::uint16_t>(S);
        case 2: return shifts<std::uint32_t>(S);
        default: return shifts<std::uint64_t>(S);
    }
}
// ---- state adder --------------------------------------------------------------------------------
PROP(state_adder, 20000, 400000, "both states have elements") {
    std::vector<std::uint32_t> a((std::size_t) S.u64(9)), b((std::size_t) S.u64(9));
    for (auto &x : a) x = (std::uint32_t) S.u64(0xffffffffu);
    for (auto &x : b) x = (std::uint32_t) S.u64(0xffffffffu);
    auto a0 = a, b0 = b;
    S.note("state_adder on ", a.size(), " and ", b.size(), " words");
    S.nontrivial(!a.empty() && !b.empty());
    det::state_adder()(a, b);
    CHECK(b == b0 && a.size() == a0.size(), "the second state or the length changed");
    for (std::size_t i = 0; i < a.size(); ++i) CHECK(a[i] == a0[i] + (i < b.size() ? b[i] : 0u), "word " << i << " of the sum");
    std::array<std::uint8_t, 4> c = {}, d = {};
    for (auto &x : c) x = (std::uint8_t) S.u64(255);
    for (auto &x : d) x = (std::uint8_t) S.u64(255);
    auto c0 = c;
    det::state_adder()(c, d);
    for (std::size_t i = 0; i < 4; ++i) CHECK(c[i] == (std::uint8_t) (c0[i] + d[i]), "byte " << i << " of the sum");
}
// ---- exclusive or -------------------------------------------------------------------------------
template<class T> static void xored(vf::Src &S) {
    std::size_t n = S.one_in(10) ? 100 + S.u64(400) : S.u64(20);
    std::vector<T> a(n), b(n), out(n + 2, T(0x5a));
    for (auto &x : a) x = (T) S.u64(std::numeric_limits<T>::max());
    for (auto &x : b) x = (T) S.u64(std::numeric_limits<T>::max());
    auto a0 = a, b0 = b;
    S.note("strxor of ", n, " units of ", sizeof(T), " bytes");
    S.nontrivial(n > 0);
    auto e = alg::strxor(a.begin(), a.end(), b.begin(), b.end(), out.begin() + 1);
    CHECK(e == out.begin() + 1 + n, "strxor does not return the end of what it wrote");
    CHECK(out[0] == T(0x5a) && out[n + 1] == T(0x5a), "strxor wrote outside");
    for (std::size_t i = 0; i < n; ++i) CHECK(out[i + 1] == T(a0[i] ^ b0[i]), "unit " << i << " of " << n);
    std::vector<T> g;
    std::list<T> l(b.begin(), b.end());
    alg::strxor(a.begin(), a.end(), l.begin(), l.end(), std::back_inserter(g));
    CHECK(g == std::vector<T>(out.begin() + 1, out.begin() + 1 + n), "strxor into a growing sequence");
    std::vector<T> r(n);
    alg::strxor(a, b, r);
    CHECK(r == g, "strxor of ranges");
    CHECK(a == a0 && b == b0, "operands changed");
    alg::strxor(r, b, r);    // in place
    CHECK(r == a0, "exclusive or twice with the same string is not the identity");
    alg::strxor(a.begin(), a.end(), b.begin(), b.end(), a.begin());
    CHECK(a == g, "strxor over the first operand");
    // unequal lengths are refused
    bool refused = false;
    std::vector<T> longer(n + 1 + S.u64(3)), o2(n), o3(n + 1);
    try { if (S.flip()) alg::strxor(b, longer, o2); else alg::strxor(longer, b, o2); } catch (boost::Asserted) { refused = true; }
    CHECK(refused, "strings of different lengths are not refused");
    refused = false;
    try { alg::strxor(b, b, o3); } catch (boost::Asserted) { refused = true; }
    CHECK(refused, "an output of another length is not refused");
    refused = false;
    try { alg::strxor(b.begin(), b.end(), longer.begin(), longer.end(), o3.begin()); } catch (boost::Asserted) { refused = true; }
    CHECK(refused, "sequences of different lengths are not refused");
}
PROP(exclusive_or, 20000, 400000, "strings are not empty") {
    switch (S.u64(2)) {
        case 0: return xored<std::uint8_t>(S);
        case 1: return xored<std::uint32_t>(S);
        default: return xored<std::uint64_t>(S);
    }
}
// ---- primes -------------------------------------------------------------------------------------
static std::uint64_t mulm(std::uint64_t a, std::uint64_t b, std::uint64_t m) { return (std::uint64_t) ((u128) a * b % m); }
static std::uint64_t powm_(std::uint64_t a, std::uint64_t e, std::uint64_t m) { std::uint64_t r = 1 % m; for (a %= m; e; e >>= 1, a = mulm(a, a, m)) if (e & 1) r = mulm(r, a, m); return r; }
static bool prime(std::uint64_t n) {    // deterministic below 2^64
    if (n < 2) return false;
    for (std::uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (n % p == 0) return n == p;
    std::uint64_t d = n - 1; int s = 0;
    while (d % 2 == 0) d /= 2, ++s;
    for (std::uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
        std::uint64_t x = powm_(a, d, n);
        if (x == 1 || x == n - 1) continue;
        bool comp = true;
        for (int i = 1; i < s && comp; ++i) if ((x = mulm(x, x, n)) == n - 1) comp = false;
        if (comp) return false;
    }
    return true;
}
template<class N> static void primes(vf::Src &S) {
    std::uint64_t m = 1 + (S.one_in(3) ? S.u64(5000) : S.u64(64));
    if (S.one_in(4)) m = std::uint64_t(1) << S.u64(12);
    std::uint64_t bits = 1 + S.u64(44);
    S.note("primes 1 mod ", m, " from 2^", bits);
    S.nontrivial(m > 1);
    // a multiple of m plus one above 2^bits: the first prime among them
    std::uint64_t q0 = (((std::uint64_t(1) << bits) + m - 1) / m) * m + 1;
    while (!prime(q0)) q0 += m;
    N f = alg::first_prime<N>(bits, m);
    CHECK(f == N(q0), "first_prime(" << bits << ", " << m << ") gives " << f << " instead of " << q0);
    std::uint64_t q = q0, n = q + m;
    while (!prime(n)) n += m;
    N g = alg::next_prime<N>(f, m);
    CHECK(g == N(n), "next_prime(" << q << ", " << m << ") gives " << g << " instead of " << n);
    CHECK(alg::previous_prime<N>(g, m) == f, "previous_prime(" << n << ", " << m << ") is not " << q);
    std::uint64_t any = q + m * S.u64(50), up = any + m, down = any - m;    // starting from numbers that are not prime
    while (!prime(up)) up += m;
    CHECK(alg::next_prime<N>(N(any), m) == N(up), "next_prime(" << any << ", " << m << ") is not " << up);
    if (any > q) {
        while (!prime(down)) down -= m;
        CHECK(alg::previous_prime<N>(N(any), m) == N(down), "previous_prime(" << any << ", " << m << ") is not " << down);
    }
}
PROP(prime_search, 1500, 60000, "a modulus above one") {
    switch (S.u64(1)) {
        case 0: return primes<boost::multiprecision::cpp_int>(S);
        default: return primes<boost::multiprecision::uint256_t>(S);
    }
}
template<class N> static void coprimes(vf::Src &S) {
    std::uint64_t n = 1 + (S.one_in(3) ? S.u64(1500) : S.u64(80));
    S.note("totient_list(", n, ")");
    S.nontrivial(n > 2);
    auto l = alg::totient_list<N>(N(n));
    std::vector<std::uint64_t> want;
    for (std::uint64_t i = 1; i <= n; ++i) if (std::gcd(i, n) == 1) want.push_back(i);
    CHECK(l.size() == want.size(), "totient_list(" << n << ") has " << l.size() << " members instead of " << want.size());
    for (std::size_t i = 0; i < want.size(); ++i) CHECK(l[i] == N(want[i]), "member " << i << " of totient_list(" << n << ") is " << l[i] << " instead of " << want[i]);
}
PROP(coprime_list, 3000, 100000, "numbers above two") {
    if (S.flip()) coprimes<boost::multiprecision::cpp_int>(S); else coprimes<boost::multiprecision::uint128_t>(S);
}
