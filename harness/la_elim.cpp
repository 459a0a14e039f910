// C03: row reduction, rank, determinant and inverse against exact rational elimination.
#include "la_common.hpp"
#include <numeric>

// exact rationals; overflow of the 128-bit numerators discards the case (cannot happen for the sizes used)
struct Rat {
    __int128 n, d;
    static __int128 g(__int128 a, __int128 b) { if (a < 0) a = -a; while (b) { __int128 t = a % b; a = b; b = t; } return a; }
    void norm() {
        if (d < 0) n = -n, d = -d;
        __int128 k = g(n, d);
        if (k > 1) n /= k, d /= k;
        const __int128 lim = (__int128) 1 << 60;
        if (n > lim || -n > lim || d > lim) throw vf::Discard();
    }
    Rat() : n(0), d(1) { }
    Rat(int x) : n(x), d(1) { }
    Rat(unsigned x) : n(x), d(1) { }
    Rat(std::size_t x) : n((__int128) x), d(1) { }
    Rat(__int128 a, __int128 b) : n(a), d(b) { norm(); }
    friend Rat operator+(Rat a, Rat b) { return Rat(a.n * b.d + b.n * a.d, a.d * b.d); }
    friend Rat operator-(Rat a, Rat b) { return Rat(a.n * b.d - b.n * a.d, a.d * b.d); }
    friend Rat operator*(Rat a, Rat b) { return Rat(a.n * b.n, a.d * b.d); }
    friend Rat operator/(Rat a, Rat b) {
        if (b.n == 0) throw vf::Fail {"division by a zero pivot"};
        return Rat(a.n * b.d, a.d * b.n);
    }
    Rat operator-() const { Rat r = *this; r.n = -r.n; return r; }
    Rat operator+() const { return *this; }
    Rat &operator+=(Rat b) { return *this = *this + b; }
    Rat &operator-=(Rat b) { return *this = *this - b; }
    Rat &operator*=(Rat b) { return *this = *this * b; }
    Rat &operator/=(Rat b) { return *this = *this / b; }
    friend bool operator==(Rat a, Rat b) { return a.n == b.n && a.d == b.d; }
    friend bool operator!=(Rat a, Rat b) { return !(a == b); }
    friend bool operator<(Rat a, Rat b) { return a.n * b.d < b.n * a.d; }
    friend bool operator>(Rat a, Rat b) { return b < a; }
    friend bool operator<=(Rat a, Rat b) { return !(b < a); }
    friend bool operator>=(Rat a, Rat b) { return !(a < b); }
    double dbl() const { return (double) n / (double) d; }
};
inline std::ostream &operator<<(std::ostream &o, Rat x) {
    o << (long long) x.n;
    if (x.d != 1) o << "/" << (long long) x.d;
    return o;
}
template<class T, std::size_t M, std::size_t N> using Mx = la::matrix<T, M, N>;
typedef std::vector<std::vector<Rat>> RM;

struct Ref { RM e; std::size_t rank; Rat det; double growth; };
// textbook elimination, first non-zero pivot
static Ref reduce(RM m) {
    std::size_t M = m.size(), N = m[0].size();
    Ref r;
    r.rank = 0;
    r.det = Rat(1);
    r.growth = 1;
    std::size_t i = 0;
    for (std::size_t j = 0; j < N && i < M; ++j) {
        std::size_t p = i;
        while (p < M && m[p][j] == Rat(0)) ++p;
        if (p == M) continue;
        if (p != i) { std::swap(m[p], m[i]); r.det = -r.det; }
        Rat s = m[i][j];
        r.det *= s;
        for (auto &x : m[i]) x /= s;
        for (std::size_t q = 0; q < M; ++q)
            if (q != i && m[q][j] != Rat(0)) {
                Rat f = m[q][j];
                for (std::size_t k = 0; k < N; ++k) m[q][k] -= f * m[i][k];
            }
        ++i;
        ++r.rank;
    }
    if (r.rank < M) r.det = Rat(0);
    r.e = m;
    return r;
}
// determinant from its definition
static Rat leibniz(const RM &m) {
    std::size_t n = m.size();
    std::vector<std::size_t> p(n);
    std::iota(p.begin(), p.end(), 0);
    Rat r(0);
    do {
        Rat t(1);
        for (std::size_t i = 0; i < n; ++i) t *= m[i][p[i]];
        int inv = 0;
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i + 1; j < n; ++j) inv += p[i] > p[j];
        r += inv % 2 ? -t : t;
    } while (std::next_permutation(p.begin(), p.end()));
    return r;
}

// matrices of every rank, with zero rows and columns, repeated rows, permuted and triangular shapes
static RM gen_matrix(vf::Src &S, std::size_t M, std::size_t N, int lim) {
    RM m(M, std::vector<Rat>(N));
    auto e = [&] { return Rat((int) S.range(-lim, lim)); };
    switch (S.u64(6)) {
        case 0: case 1:
            for (auto &r : m) for (auto &x : r) x = e();
            break;
        case 2: {    // low rank: product of M x k and k x N with tiny entries
            std::size_t k = S.u64(std::min(M, N));
            RM a(M, std::vector<Rat>(k + 1)), b(k + 1, std::vector<Rat>(N));
            for (auto &r : a) for (std::size_t i = 0; i < k; ++i) r[i] = Rat((int) S.range(-2, 2));
            for (std::size_t i = 0; i < k; ++i) for (auto &x : b[i]) x = Rat((int) S.range(-2, 2));
            for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) for (std::size_t q = 0; q < k; ++q) m[i][j] += a[i][q] * b[q][j];
            break;
        }
        case 3:    // sparse
            for (auto &r : m) for (auto &x : r) if (S.u64(2) == 0) x = e();
            break;
        case 4:    // permuted triangular
            for (std::size_t i = 0; i < M; ++i) for (std::size_t j = i; j < N; ++j) m[i][j] = e();
            for (std::size_t i = 0; i + 1 < M; ++i) std::swap(m[i], m[i + S.index(M - i)]);
            break;
        case 5:    // repeated and scaled rows
            for (std::size_t i = 0; i < M; ++i)
                if (i > 0 && S.flip()) { Rat f((int) S.range(-2, 2)); std::size_t k = S.index(i); for (std::size_t j = 0; j < N; ++j) m[i][j] = f * m[k][j]; }
                else for (auto &x : m[i]) x = e();
            break;
        default:    // signed permutation
            for (std::size_t i = 0; i < M && i < N; ++i) m[i][i] = S.flip() ? Rat(-1) : Rat(1);
            for (std::size_t i = 0; i + 1 < M; ++i) std::swap(m[i], m[i + S.index(M - i)]);
    }
    return m;
}
template<class T> T conv(Rat r) { if constexpr (std::is_same<T, Rat>::value) return r; else return (T) r.dbl(); }
static std::string text(const RM &m) {
    std::ostringstream o;
    o << "{";
    for (std::size_t i = 0; i < m.size(); ++i) for (std::size_t j = 0; j < m[i].size(); ++j) o << (j ? " " : i ? " | " : "") << m[i][j];
    return o.str() + "}";
}
template<class T> bool close(T got, Rat want, double scale) {
    if constexpr (std::is_same<T, Rat>::value) return got == want;
    else return std::fabs((double) got - want.dbl()) <= (double) std::numeric_limits<T>::epsilon() * 1e5 * (scale + std::fabs(want.dbl()));
}

template<class T, std::size_t M, std::size_t N> void elim(vf::Src &S) {
    constexpr bool exact = std::is_same<T, Rat>::value;
    RM m = gen_matrix(S, M, N, exact ? 9 : 4);
    Ref ref = reduce(m);
    Mx<T, M, N> a = {};
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) a.arrays[i][j] = conv<T>(m[i][j]);
    const auto A = a;
    S.note((exact ? "exact " : sizeof(T) == 4 ? "float " : "double "), M, "x", N, " ", text(m), " rank ", ref.rank);
    bool zero_first = m[0][0] == Rat(0);
    S.nontrivial(ref.rank > 0 && (ref.rank < std::min(M, N) || zero_first || M > 1));
    double scale = 1;
    for (auto &r : ref.e) for (auto &x : r) scale = std::max(scale, std::fabs(x.dbl()));
    scale *= 16;
    std::size_t rk = la::rank(a);
    CHECK(rk == ref.rank, "rank of " << text(m) << " is " << ref.rank << ", got " << rk);
    auto e = la::rref(a);
    for (std::size_t i = 0; i < M; ++i)
        for (std::size_t j = 0; j < N; ++j)
            CHECK(close(e.arrays[i][j], ref.e[i][j], scale), "reduced form of " << text(m) << " should be " << text(ref.e) << ", got " << show(e));
    T tol = T(0);
    if constexpr (!exact) tol = std::numeric_limits<T>::epsilon() * 4096;
    auto e2 = la::rref(a, tol);
    for (std::size_t i = 0; i < M; ++i)
        for (std::size_t j = 0; j < N; ++j)
            CHECK(close(e2.arrays[i][j], ref.e[i][j], scale), "reduced form (explicit tolerance) of " << text(m) << " should be " << text(ref.e) << ", got " << show(e2));
    if constexpr (M == N) {
        Rat want = M <= 5 ? leibniz(m) : ref.det;
        CHECK(want == ref.det, "oracle disagreement on the determinant of " << text(m));
        T d = la::det(a);
        double ds = 1;
        for (auto &r : m) { double q = 0; for (auto &x : r) q += std::fabs(x.dbl()); ds *= std::max(q, 1.); }
        CHECK(close(d, want, ref.rank < M ? 0 : ds), "determinant of " << text(m) << " is " << want << ", got " << d);
        bool refused = false;
        Mx<T, M, M> inv = {};
        try { inv = la::inverse(a); } catch (const char *) { refused = true; }
        CHECK(refused == (ref.rank < M), "inversion of " << text(m) << (refused ? " is refused" : " is not refused"));
        if (!refused) {
            RM ext = m;
            for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < M; ++j) ext[i].push_back(Rat(i == j ? 1 : 0));
            Ref r2 = reduce(ext);
            double sc = 1;
            for (auto &r : r2.e) for (auto &x : r) sc = std::max(sc, std::fabs(x.dbl()));
            for (std::size_t i = 0; i < M; ++i)
                for (std::size_t j = 0; j < M; ++j)
                    CHECK(close(inv.arrays[i][j], r2.e[i][M + j], sc * 16), "inverse of " << text(m) << " gives " << show(inv));
            if constexpr (!exact) {
                // the inverse scales with the matrix, however small or large its entries are
                int k = (int) S.range(sizeof(T) == 4 ? -60 : -400, sizeof(T) == 4 ? 60 : 400);
                auto b = a;
                for (auto &r : b.arrays) for (auto &x : r) x = std::ldexp(x, k);
                auto bi = la::inverse(b);
                for (std::size_t i = 0; i < M; ++i)
                    for (std::size_t j = 0; j < M; ++j)
                        CHECK(close(std::ldexp(bi.arrays[i][j], k), r2.e[i][M + j], sc * 16), "inverse of " << text(m) << " * 2^" << k << " gives " << show(bi));
                CHECK(la::rank(b) == M, "rank of " << text(m) << " * 2^" << k);
            } else {
                auto p = la::matmul(a, inv), q = la::matmul(inv, a);
                for (std::size_t i = 0; i < M; ++i)
                    for (std::size_t j = 0; j < M; ++j)
                        CHECK(p.arrays[i][j] == Rat(i == j ? 1 : 0) && q.arrays[i][j] == Rat(i == j ? 1 : 0), "a matrix times its inverse");
            }
        }
    }
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) CHECK(a.arrays[i][j] == A.arrays[i][j], "operand changed");
}
template<class T> void elim_n(vf::Src &S) {
    switch (S.u64(13)) {
        case 0: return elim<T, 2, 2>(S);
        case 1: return elim<T, 1, 1>(S);
        case 2: return elim<T, 3, 3>(S);
        case 3: return elim<T, 4, 4>(S);
        case 4: return elim<T, 2, 3>(S);
        case 5: return elim<T, 3, 2>(S);
        case 6: return elim<T, 1, 4>(S);
        case 7: return elim<T, 4, 1>(S);
        case 8: return elim<T, 3, 4>(S);
        case 9: return elim<T, 4, 3>(S);
        case 10: return elim<T, 2, 5>(S);
        case 11: return elim<T, 5, 2>(S);
        case 12: if constexpr (std::is_same<T, Rat>::value) return elim<T, 6, 6>(S); else return elim<T, 3, 3>(S);
        default: if constexpr (std::is_same<T, Rat>::value) return elim<T, 5, 5>(S); else return elim<T, 3, 5>(S);
    }
}
#define RULE "matrix is not zero and is rank deficient, has a zero leading entry or more than one row"
#ifdef ELIM_EXACT
PROP(elimination_exact, 20000, 1000000, RULE) { elim_n<Rat>(S); }
#else
PROP(elimination_double, 40000, 2000000, RULE) { elim_n<double>(S); }
PROP(elimination_float, 10000, 500000, RULE) { elim_n<float>(S); }
// a matrix perturbed far below the tolerance reduces like the unperturbed one
PROP(elimination_tolerance, 10000, 500000, "the unperturbed matrix is rank deficient and not zero") {
    RM m = gen_matrix(S, 3, 3, 3);
    Ref ref = reduce(m);
    Mx<double, 3, 3> a = {};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = m[i][j].dbl() + 1e-13 * (double) S.range(-9, 9);
    S.note(text(m), " perturbed by ~1e-12");
    S.nontrivial(ref.rank > 0 && ref.rank < 3);
    auto e = la::rref(a, 1e-6);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            CHECK(std::fabs(e[i][j] - ref.e[i][j].dbl()) < 1e-5, "reduced form with tolerance 1e-6 of " << text(m) << " gives " << show(e));
}
#endif
