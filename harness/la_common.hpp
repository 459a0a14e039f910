// Element types, generators and comparisons for the linear-algebra checks (C01-C03, C05).
#ifndef LA_COMMON_HPP
#define LA_COMMON_HPP
#include "verif.hpp"
#include <array>
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <limits>
#include <tuple>
#include <type_traits>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/vector.hpp>

namespace la = nil::crypto3::algebra;

// residues modulo 97: an exact field that is not an arithmetic type
struct F97 {
    int v;
    constexpr F97() : v(0) { }
    constexpr F97(int x) : v(((x % 97) + 97) % 97) { }
    constexpr F97(unsigned x) : v((int) (x % 97u)) { }
    friend constexpr F97 operator+(F97 a, F97 b) { return F97(a.v + b.v); }
    friend constexpr F97 operator-(F97 a, F97 b) { return F97(a.v - b.v); }
    friend constexpr F97 operator*(F97 a, F97 b) { return F97(a.v * b.v); }
    constexpr F97 operator-() const { return F97(-v); }
    constexpr F97 inv() const {
        F97 r(1);
        for (int i = 0; i < 95; ++i) r = r * *this;
        return r;
    }
    friend constexpr F97 operator/(F97 a, F97 b) { return a * b.inv(); }
    constexpr F97 &operator+=(F97 b) { return *this = *this + b; }
    constexpr F97 &operator-=(F97 b) { return *this = *this - b; }
    constexpr F97 &operator*=(F97 b) { return *this = *this * b; }
    constexpr F97 &operator/=(F97 b) { return *this = *this / b; }
    friend constexpr bool operator==(F97 a, F97 b) { return a.v == b.v; }
    friend constexpr bool operator!=(F97 a, F97 b) { return a.v != b.v; }
};
// 2x2 matrices modulo 251: multiplication does not commute, so a swapped operand shows
struct NC {
    int a, b, c, d;
    static constexpr int m(long long x) { return (int) (((x % 251) + 251) % 251); }
    constexpr NC() : a(0), b(0), c(0), d(0) { }
    constexpr NC(int x) : a(m(x)), b(0), c(0), d(m(x)) { }
    constexpr NC(unsigned x) : a(m(x)), b(0), c(0), d(m(x)) { }
    constexpr NC(int a_, int b_, int c_, int d_) : a(m(a_)), b(m(b_)), c(m(c_)), d(m(d_)) { }
    friend constexpr NC operator+(NC x, NC y) { return NC(x.a + y.a, x.b + y.b, x.c + y.c, x.d + y.d); }
    friend constexpr NC operator-(NC x, NC y) { return NC(x.a - y.a, x.b - y.b, x.c - y.c, x.d - y.d); }
    friend constexpr NC operator*(NC x, NC y) {
        return NC(x.a * y.a + x.b * y.c, x.a * y.b + x.b * y.d, x.c * y.a + x.d * y.c, x.c * y.b + x.d * y.d);
    }
    // x/y := x * adj(y): only needs to be an order-sensitive operation
    friend constexpr NC operator/(NC x, NC y) { return x * NC(y.d, -y.b, -y.c, y.a); }
    constexpr NC &operator+=(NC y) { return *this = *this + y; }
    friend constexpr bool operator==(NC x, NC y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; }
    friend constexpr bool operator!=(NC x, NC y) { return !(x == y); }
};
inline std::ostream &operator<<(std::ostream &o, F97 x) { return o << x.v; }
inline std::ostream &operator<<(std::ostream &o, NC x) { return o << "<" << x.a << "," << x.b << "," << x.c << "," << x.d << ">"; }

template<class T> constexpr bool is_cx = la::is_complex_v<T>;
template<class T> constexpr bool is_real = std::is_arithmetic<T>::value;
template<class T> constexpr bool is_fl = std::is_floating_point<T>::value;

// values whose sums and products are exact in T
template<class T> T gen_small(vf::Src &S) {
    if constexpr (is_cx<T>) {
        using R = typename T::value_type;
        return T((R) S.integer(40) / (R) 2, (R) S.integer(40) / (R) 2);
    } else if constexpr (std::is_same<T, F97>::value) return F97((int) S.u64(96));
    else if constexpr (std::is_same<T, NC>::value) {
        int k[4];
        for (auto &x : k) x = (int) S.u64(250);
        return NC(k[0], k[1], k[2], k[3]);
    } else if constexpr (is_fl<T>) return (T) S.integer(400) / (T) 4;
    else if constexpr (std::is_unsigned<T>::value) return (T) S.u64(std::numeric_limits<T>::max());
    else return (T) S.integer(sizeof(T) == 1 ? 5 : sizeof(T) == 2 ? 60 : 1000);
}
// any value (for operations that only move or compare)
template<class T> T gen_any(vf::Src &S) {
    if constexpr (is_cx<T> || std::is_same<T, F97>::value || std::is_same<T, NC>::value) return gen_small<T>(S);
    else if constexpr (is_fl<T>) {
        switch (S.u64(5)) {
            case 0: return (T) S.integer(3);
            case 1: return (T) S.integer(1000000) / (T) 7;
            case 2: return std::ldexp((T) S.integer(1000), (int) S.range(-100, 100));
            case 3: return S.flip() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
            case 4: return S.flip() ? std::numeric_limits<T>::denorm_min() : -std::numeric_limits<T>::min();
            default: return S.flip() ? -(T) 0 : (T) 0;
        }
    } else {
        switch (S.u64(3)) {
            case 0: return (T) S.integer(3);
            case 1: return (T) S.integer(100);
            case 2: return (T) S.u64(~0ull);
            default: return S.flip() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
        }
    }
}
template<class T> T gen_nonzero(vf::Src &S) {
    if constexpr (std::is_same<T, NC>::value) return gen_small<T>(S);
    else {
        T x = gen_small<T>(S);
        if (x == T(0u)) x = T(1u);
        return x;
    }
}

// equality of results; floats: same value, or both NaN
template<class T> bool same(const T &a, const T &b) {
    if constexpr (is_fl<T>) return a == b || (std::isnan(a) && std::isnan(b));
    else return a == b;
}
// within a few units of rounding (division, roots)
template<class T> bool near(const T &a, const T &b) {
    if constexpr (is_fl<T>) {
        if (a == b) return true;
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        return std::fabs(a - b) <= 8 * std::numeric_limits<T>::epsilon() * std::max(std::fabs(a), std::fabs(b));
    } else if constexpr (is_cx<T>) {
        using R = typename T::value_type;
        return std::abs(a - b) <= 64 * std::numeric_limits<R>::epsilon() * (1 + std::abs(b));
    } else return a == b;
}

template<class T> struct Show { const T *p; std::size_t n, w; };
template<class T> std::ostream &operator<<(std::ostream &o, const Show<T> &s) {
    o << "{";
    for (std::size_t i = 0; i < s.n; ++i) o << (i ? (s.w && i % s.w == 0 ? " | " : " ") : "") << +s.p[i];
    return o << "}";
}
inline F97 operator+(F97 a) { return a; }
inline NC operator+(NC a) { return a; }
template<class T, std::size_t N> Show<T> show(const la::vector<T, N> &v) { return {v.array, N, 0}; }
template<class T, std::size_t M, std::size_t N> Show<T> show(const la::matrix<T, M, N> &m) { return {&m.arrays[0][0], M * N, N}; }

template<class T> const char *tname() {
    return std::is_same<T, int>::value ? "int" : std::is_same<T, unsigned>::value ? "unsigned" :
           std::is_same<T, long long>::value ? "long long" : std::is_same<T, double>::value ? "double" :
           std::is_same<T, float>::value ? "float" : std::is_same<T, std::complex<double>>::value ? "complex<double>" :
           std::is_same<T, std::complex<float>>::value ? "complex<float>" : std::is_same<T, F97>::value ? "F97" :
           std::is_same<T, NC>::value ? "noncommutative" : std::is_same<T, unsigned char>::value ? "unsigned char" :
           std::is_same<T, short>::value ? "short" : "T";
}
#endif
