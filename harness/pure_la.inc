// C29: calls on vectors, matrices and scalars.
#include "la_common.hpp"
#include "pure.hpp"
namespace pl {
template<class T> struct Re { typedef T type; };
template<class T> struct Re<std::complex<T>> { typedef T type; };
template<class T> std::string hex(const T &x) { char b[64]; std::string s; if constexpr (std::is_same<T, typename Re<T>::type>::value) { std::snprintf(b, sizeof b, "%a,", (double) x); s = b; } else { s = hex(x.real()) + hex(x.imag()); } return s; }
template<class T, std::size_t N> std::string put(const la::vector<T, N> &v) { std::string s = "("; for (std::size_t i = 0; i < N; ++i) s += hex(v[i]); return s + ")"; }
template<class T, std::size_t M, std::size_t N> std::string put(const la::matrix<T, M, N> &m) { std::string s; for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) s += hex(m.arrays[i][j]); return s + ";"; }
inline double num(unsigned s) { static const double v[] = {0, 1, -1, 2, 0.5, -3, 1e-3, 7, 1e5, -0.25}; return v[s % 10]; }
template<class T> T val(unsigned s) { if constexpr (std::is_same<T, typename Re<T>::type>::value) return T(num(s)); else return T(num(s), num(s / 10 + s)); }
template<class T, std::size_t N> la::vector<T, N> vec(unsigned s) { la::vector<T, N> v; for (std::size_t i = 0; i < N; ++i) v[i] = val<T>(s * 3 + i * (1 + s % 3)); return v; }
template<class T, std::size_t M, std::size_t N> la::matrix<T, M, N> mat(unsigned s) { la::matrix<T, M, N> m; for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) m.arrays[i][j] = val<T>(s * 7 + i * (2 + s % 4) + j * j + i * j * s); return m; }
#define OP(N, ...) template<class T> std::string N(unsigned a, unsigned b, unsigned k) { (void) k; auto x = mat<T, 3, 3>(a); auto y = mat<T, 3, 3>(b); auto w = mat<T, 2, 3>(b); auto u = vec<T, 4>(a); auto v = vec<T, 4>(b); auto c = vec<T, 3>(b); \
    const auto x0 = x, y0 = y; const auto w0 = w; const auto u0 = u, v0 = v; (void) c; std::string r_; __VA_ARGS__ \
    pure::same(put(x), put(x0), "first matrix"); pure::same(put(y), put(y0), "second matrix"); pure::same(put(w), put(w0), "third matrix"); pure::same(put(u), put(u0), "first vector"); pure::same(put(v), put(v0), "second vector"); return r_; }
OP(products, r_ = put(la::matmul(w, x)) + put(la::matvectmul(w, c)) + put(la::vectmatmul(c, x)) + put(la::kron(w, x)) + hex(la::dot(u, v));)
OP(shapes, r_ = put(la::transpose(w)) + put(la::hermitian(w)) + hex(la::trace(x)) + put(la::horzcat(w, w)) + put(la::vertcat(w, x)) + put(la::repmat<2, 2>(w)) + put(la::submat<2, 2>(x, k % 2, a % 2)) + put(la::reshape<3, 2>(w)) + put(la::get_identity<T, 3>());
   r_ += put(la::rotate(u, (int) k - 4)) + put(la::concat(u, v)) + put(la::slice<2>(u, k % 3));)
OP(elimination, if constexpr (std::is_same<T, typename Re<T>::type>::value) { r_ = put(la::rref(x)) + std::to_string(la::rank(x)) + hex(la::det(x)); try { r_ += put(la::inverse(x)); } catch (const char *e) { r_ += e; } })
OP(arithmetic, r_ = put(x + y) + put(x * y) + put(u + v) + put(u * v) + put(u * T(3)) + put(T(2) + x) + std::to_string(x == y) + std::to_string(u == v) + hex(la::sum(u)) + put(la::conj(x)) + put(la::real(u)) + put(la::imag(x));)
template<class T> std::string ordered(unsigned a, unsigned b, unsigned k) {
    auto u = vec<T, 5>(a); const auto u0 = u; auto x = mat<T, 3, 2>(b);
    std::string r = hex(la::min(u)) + hex(la::max(u)) + std::to_string(la::min_index(u)) + "," + std::to_string(la::max_index(u)) + hex(la::macs(x)) + hex(la::mars(x)) + put(la::iota<5, T>(T(k))) + put(la::linspace<5, T>(T(a), T(b))) + put(la::fill<3>(T(k)));
    pure::same(put(u), put(u0), "vector");
    return r;
}
template<class T> std::string scalars(unsigned a, unsigned b, unsigned k) {
    T x = val<T>(a), y = val<T>(b);
    std::string r = hex(y) + hex(la::conj(la::vector<T, 1> {x})[0]);
    if constexpr (std::is_same<T, typename Re<T>::type>::value) r += hex(la::exponentiate(x == T(0) ? T(1) : x, (int) k - 3)) + hex(la::sqrt(std::abs(x))) + hex(la::nthroot(1 + k % 4, std::abs(y)));
    return r;
}
template<class T> int reg(const char *n) {
    auto add = [&](const char *o, pure::Fn f) { pure::ops().push_back(pure::Op {std::string(n) + "." + o, f}); };
#define A_(N) add(#N, N<T>);
    A_(products) A_(shapes) A_(elimination) A_(arithmetic) A_(scalars)
    if constexpr (std::is_same<T, typename Re<T>::type>::value) { A_(ordered) }
    return 0;
}
static int r1 = reg<double>("double"), r2 = reg<float>("float"), r3 = reg<std::complex<double>>("complex");
}    // namespace pl
