#ifndef C05_HPP
#define C05_HPP
#include <complex>
#include <cstddef>
#include <cstring>
#include <limits>
#include <string>
#include <utility>
#include <vector>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/vector.hpp>
#include "verif.hpp"
namespace la = nil::crypto3::algebra;
typedef std::complex<double> cd;
// residues modulo 97, an element type of the user's own
struct R97 {
    int v = 0;
    constexpr R97() = default;
    constexpr R97(int x) : v(((x % 97) + 97) % 97) { }
    constexpr R97 operator+(R97 o) const { return v + o.v; }
    constexpr R97 operator-(R97 o) const { return v - o.v; }
    constexpr R97 operator*(R97 o) const { return v * o.v; }
    constexpr R97 &operator+=(R97 o) { return *this = *this + o; }
    constexpr R97 operator-() const { return -v; }
    constexpr bool operator==(R97 o) const { return v == o.v; }
    constexpr bool operator!=(R97 o) const { return v != o.v; }
    constexpr bool operator<(R97 o) const { return v < o.v; }
    constexpr bool operator>(R97 o) const { return v > o.v; }
};
// hides the value from the optimiser, so that what follows is computed at run time
template<class T> T launder(const T &x) {
    T y = x;
    asm volatile("" : : "r"(&y) : "memory");
    return y;
}
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline bool same(float a, float b) { return a == b || (a != a && b != b); }
inline bool same(cd a, cd b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
template<class T> bool same(const T &a, const T &b) { return a == b; }
template<class T, std::size_t N> bool same(const la::vector<T, N> &a, const la::vector<T, N> &b) {
    for (std::size_t i = 0; i < N; ++i) if (!same(a[i], b[i])) return false;
    return true;
}
template<class T, std::size_t N, std::size_t M> bool same(const la::matrix<T, N, M> &a, const la::matrix<T, N, M> &b) {
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) if (!same(a[i][j], b[i][j])) return false;
    return true;
}
template<class T> std::string show(const T &x) { std::ostringstream o; o.precision(17); o << +x; return o.str(); }
inline std::string show(const cd &x) { return "(" + show(x.real()) + "," + show(x.imag()) + ")"; }
inline std::string show(const R97 &x) { return show(x.v); }
template<class T, std::size_t N> std::string show(const la::vector<T, N> &a) { std::string s = "{"; for (std::size_t i = 0; i < N; ++i) s += show(a[i]) + " "; return s + "}"; }
template<class T, std::size_t N, std::size_t M> std::string show(const la::matrix<T, N, M> &a) {
    std::string s = "{"; for (std::size_t i = 0; i < N; ++i) { for (std::size_t j = 0; j < M; ++j) s += show(a[i][j]) + " "; s += "| "; } return s + "}";
}
struct Row { const char *desc; void (*run)(); };
#endif
