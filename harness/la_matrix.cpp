// C02: matrix operations against their definitions.
#include "la_common.hpp"

template<class T, std::size_t M, std::size_t N> using Mx = la::matrix<T, M, N>;
template<class T, std::size_t N> using V = la::vector<T, N>;

template<class T, std::size_t M, std::size_t N, class G> Mx<T, M, N> gen(vf::Src &S, G g) {
    Mx<T, M, N> m = {};
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) m.arrays[i][j] = g(S);
    return m;
}
template<class T, std::size_t M, std::size_t N> Mx<T, M, N> gens(vf::Src &S) { return gen<T, M, N>(S, gen_small<T>); }
template<class T, std::size_t M, std::size_t N> bool same_m(const Mx<T, M, N> &a, const Mx<T, M, N> &b) {
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) if (!same(a.arrays[i][j], b.arrays[i][j])) return false;
    return true;
}
template<class T, std::size_t M, std::size_t N> bool distinct_content(const Mx<T, M, N> &a) {
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) if (!same(a.arrays[i][j], a.arrays[0][0])) return true;
    return M * N == 1;
}
// R: matrix expression; EXPR: expected value at (i, j)
#define EACHM(R, ROWS, COLS, EXPR, WHAT)                                                                         \
    do {                                                                                                         \
        auto r_ = R;                                                                                             \
        static_assert(decltype(r_)::column_size == (ROWS) && decltype(r_)::row_size == (COLS), "shape of result"); \
        for (std::size_t i = 0; i < (ROWS); ++i)                                                                 \
            for (std::size_t j = 0; j < (COLS); ++j)                                                             \
                CHECK(same(r_.arrays[i][j], std::decay_t<decltype(r_.arrays[0][0])>(EXPR)),                      \
                      WHAT << " at (" << i << "," << j << ") on " << ctx() << " gives " << show(r_));             \
    } while (0)
#define EACHM_NEAR(R, ROWS, COLS, EXPR, WHAT)                                                                    \
    do {                                                                                                         \
        auto r_ = R;                                                                                             \
        for (std::size_t i = 0; i < (ROWS); ++i)                                                                 \
            for (std::size_t j = 0; j < (COLS); ++j)                                                             \
                CHECK(near(r_.arrays[i][j], EXPR), WHAT << " at (" << i << "," << j << ") on " << ctx() << " gives " << show(r_)); \
    } while (0)
#define EACHV(R, LEN, EXPR, WHAT)                                                                                \
    do {                                                                                                         \
        auto r_ = R;                                                                                             \
        static_assert(decltype(r_)::size == (LEN), "length of result");                                          \
        for (std::size_t i = 0; i < (LEN); ++i)                                                                  \
            CHECK(same(r_.array[i], std::decay_t<decltype(r_.array[0])>(EXPR)), WHAT << " at " << i << " on " << ctx() << " gives " << show(r_)); \
    } while (0)

template<class T, std::size_t M, std::size_t N> void ops(vf::Src &S) {
    auto a = gens<T, M, N>(S), b = gens<T, M, N>(S), nz = gen<T, M, N>(S, gen_nonzero<T>);
    const auto A = a, B = b;
    T s = gen_small<T>(S);
    auto ctx = [&] {
        std::ostringstream o;
        o << tname<T>() << " " << M << "x" << N << " a=" << show(A) << " b=" << show(B) << " nz=" << show(nz) << " s=" << +s;
        return o.str();
    };
    S.note(ctx());
    S.nontrivial(distinct_content(a) && distinct_content(b));
    EACHM(a + b, M, N, A.arrays[i][j] + B.arrays[i][j], "a+b");
    EACHM(a * b, M, N, A.arrays[i][j] * B.arrays[i][j], "a*b");
    EACHM(a + s, M, N, A.arrays[i][j] + s, "a+s");
    EACHM(s + a, M, N, s + A.arrays[i][j], "s+a");
    EACHM(a * s, M, N, A.arrays[i][j] * s, "a*s");
    EACHM(s * a, M, N, s * A.arrays[i][j], "s*a");
    EACHM_NEAR(a / nz, M, N, (T) (A.arrays[i][j] / nz.arrays[i][j]), "a/nz");
    EACHM_NEAR(s / nz, M, N, (T) (s / nz.arrays[i][j]), "s/nz");
    auto c = a;
    CHECK((a == c) && !(a != c), "copy differs: " << ctx());
    bool eq = same_m(A, B);
    CHECK((a == b) == eq && (a != b) == !eq, "comparison: " << ctx());
    std::size_t ki = S.index(M), kj = S.index(N);
    c[ki][kj] = c[ki][kj] + T(1u);
    bool differs = !(c.arrays[ki][kj] == A.arrays[ki][kj]);
    CHECK((a == c) == !differs && (a != c) == differs, "differs only at " << ki << "," << kj << ": " << ctx());
    for (std::size_t i = 0; i < M; ++i)
        for (std::size_t j = 0; j < N; ++j)
            CHECK(same(c[i][j], i == ki && j == kj ? (T) (A.arrays[i][j] + T(1u)) : A.arrays[i][j]), "element write: " << ctx());
    EACHM(la::elementwise([](T x) { return (T) (x + x); }, a), M, N, A.arrays[i][j] + A.arrays[i][j], "elementwise/1");
    EACHM(la::elementwise([](T x, T y) { return (T) (x - y); }, a, b), M, N, A.arrays[i][j] - B.arrays[i][j], "elementwise/2");
    EACHM(la::elementwise([](T x, T y, T z) { return (T) (x - y * z); }, a, b, nz), M, N,
          A.arrays[i][j] - B.arrays[i][j] * nz.arrays[i][j], "elementwise/3");
    Mx<int, M, N> f = {};
    for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) f.arrays[i][j] = (int) (i * 7 + j);
    EACHM(la::elementwise([](T x, int k) { return (long) (k + (x == T(0u) ? 1000 : 0)); }, a, f), M, N,
          (long) (i * 7 + j + (A.arrays[i][j] == T(0u) ? 1000 : 0)), "elementwise of mixed types");
    CHECK(same_m(a, A) && same_m(b, B), "operand changed: " << ctx());
    if constexpr (is_cx<T>) {
        EACHM(la::conj(a), M, N, T(A.arrays[i][j].real(), -A.arrays[i][j].imag()), "conj");
        EACHM(la::real(a), M, N, A.arrays[i][j].real(), "real");
        EACHM(la::imag(a), M, N, A.arrays[i][j].imag(), "imag");
        EACHM(la::hermitian(a), N, M, T(A.arrays[j][i].real(), -A.arrays[j][i].imag()), "hermitian");
    } else {
        EACHM(la::conj(a), M, N, A.arrays[i][j], "conj of reals");
        EACHM(la::hermitian(a), N, M, A.arrays[j][i], "hermitian of reals");
        if constexpr (is_fl<T>) {
            EACHM(la::real(a), M, N, A.arrays[i][j], "real of reals");
            EACHM(la::imag(a), M, N, (T) 0, "imag of reals");
        }
    }
    if constexpr (is_real<T>) {
        EACHM(la::cast<double>(a), M, N, (double) A.arrays[i][j], "cast to double");
        EACHM(la::cast<long long>(a), M, N, (long long) A.arrays[i][j], "cast to long long");
        if constexpr (std::is_integral<T>::value) EACHM(la::cast<unsigned char>(a), M, N, (unsigned char) A.arrays[i][j], "cast to unsigned char");
        else EACHM(la::cast<std::complex<T>>(a), M, N, std::complex<T>(A.arrays[i][j]), "cast to complex");
    }
}

template<class T, std::size_t M, std::size_t N> void shape(vf::Src &S) {
    auto a = gen<T, M, N>(S, gen_any<T>);
    if constexpr (is_real<T>) if (S.flip()) for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) a.arrays[i][j] = (T) (i * 100 + j);
    const auto A = a;
    std::size_t r1 = S.index(M), r2 = S.index(M), c1 = S.index(N), c2 = S.index(N);
    auto ctx = [&] {
        std::ostringstream o;
        o << tname<T>() << " " << M << "x" << N << " a=" << show(A) << " rows " << r1 << "," << r2 << " columns " << c1 << "," << c2;
        return o.str();
    };
    S.note(ctx());
    S.nontrivial(distinct_content(a));
    EACHV(a.row(r1), N, A.arrays[r1][i], "row " << r1);
    EACHV(a.column(c1), M, A.arrays[i][c1], "column " << c1);
    const auto &ca = a;
    CHECK(&ca[r1][c1] == &a.arrays[r1][c1] && &a[r1][c1] == &a.arrays[r1][c1], "element access");
    CHECK((Mx<T, M, N>::column_size == M && Mx<T, M, N>::row_size == N), "dimensions");
    auto refused = [&](auto f) { try { f(); return false; } catch (const char *) { return true; } };
    std::size_t far = S.u64(3) ? S.u64(5) : (std::size_t) 1 << 40;
    CHECK(refused([&] { a.row(M + far); }), "row " << M + far << " of " << M << " is not refused");
    CHECK(refused([&] { a.column(N + far); }), "column " << N + far << " of " << N << " is not refused");
    EACHM(la::transpose(a), N, M, A.arrays[j][i], "transpose");
    EACHM(la::swaprow(a, r1, r2), M, N, A.arrays[i == r1 ? r2 : i == r2 ? r1 : i][j], "swaprow " << r1 << "," << r2);
    EACHM(la::swapcol(a, c1, c2), M, N, A.arrays[i][j == c1 ? c2 : j == c2 ? c1 : j], "swapcol " << c1 << "," << c2);
    EACHM((la::repmat<1, 1>(a)), M, N, A.arrays[i][j], "repmat<1,1>");
    EACHM((la::repmat<2, 1>(a)), 2 * M, N, A.arrays[i % M][j], "repmat<2,1>");
    EACHM((la::repmat<1, 3>(a)), M, 3 * N, A.arrays[i][j % N], "repmat<1,3>");
    EACHM((la::repmat<3, 2>(a)), 3 * M, 2 * N, A.arrays[i % M][j % N], "repmat<3,2>");
    auto cat = [&](auto W) {
        constexpr std::size_t P = decltype(W)::value;
        auto h = gen<T, M, P>(S, gen_any<T>);
        auto v = gen<T, P, N>(S, gen_any<T>);
        EACHM(la::horzcat(a, h), M, N + P, j < N ? A.arrays[i][j] : h.arrays[i][j - N], "horzcat with " << show(h));
        EACHM(la::horzcat(h, a), M, N + P, j < P ? h.arrays[i][j] : A.arrays[i][j - P], "horzcat after " << show(h));
        EACHM(la::vertcat(a, v), M + P, N, i < M ? A.arrays[i][j] : v.arrays[i - M][j], "vertcat with " << show(v));
        EACHM(la::vertcat(v, a), M + P, N, i < P ? v.arrays[i][j] : A.arrays[i - P][j], "vertcat after " << show(v));
    };
    cat(std::integral_constant<std::size_t, 1>());
    cat(std::integral_constant<std::size_t, 3>());
    auto sub = [&](auto PP, auto QQ) {
        constexpr std::size_t P = decltype(PP)::value, Q = decltype(QQ)::value;
        if constexpr (P <= M && Q <= N) {
            std::size_t x = S.index(M - P + 1), y = S.index(N - Q + 1);
            EACHM((la::submat<P, Q>(a, x, y)), P, Q, A.arrays[x + i][y + j], "submat<" << P << "," << Q << "> at " << x << "," << y);
            CHECK(refused([&] { la::submat<P, Q>(a, M - P + 1 + far % 9, y); }), "submat below the last row is not refused");
            CHECK(refused([&] { la::submat<P, Q>(a, x, N - Q + 1 + far % 9); }), "submat right of the last column is not refused");
        } else CHECK(refused([&] { la::submat<P, Q>(a, 0, 0); }), "oversized submat is not refused");
    };
    sub(std::integral_constant<std::size_t, 1>(), std::integral_constant<std::size_t, 1>());
    sub(std::integral_constant<std::size_t, 2>(), std::integral_constant<std::size_t, 2>());
    sub(std::integral_constant<std::size_t, 1>(), std::integral_constant<std::size_t, N>());
    sub(std::integral_constant<std::size_t, M>(), std::integral_constant<std::size_t, 1>());
    sub(std::integral_constant<std::size_t, M>(), std::integral_constant<std::size_t, N>());
    sub(std::integral_constant<std::size_t, 3>(), std::integral_constant<std::size_t, 2>());
    auto resh = [&](auto PP) {
        constexpr std::size_t P = decltype(PP)::value, Q = M * N / P;
        if constexpr (P * Q == M * N)
            EACHM((la::reshape<P, Q>(a)), P, Q, A.arrays[(i * Q + j) / N][(i * Q + j) % N], "reshape<" << P << "," << Q << ">");
    };
    resh(std::integral_constant<std::size_t, 1>());
    resh(std::integral_constant<std::size_t, 2>());
    resh(std::integral_constant<std::size_t, 3>());
    resh(std::integral_constant<std::size_t, N>());
    resh(std::integral_constant<std::size_t, M>());
    resh(std::integral_constant<std::size_t, M * N>());
    V<T, N> v = a.row(r1);
    EACHM(la::as_column(v), N, 1, (j, v.array[i]), "as_column");
    EACHM(la::as_row(v), 1, N, (i, v.array[j]), "as_row");
    T s = gen_small<T>(S);
    EACHM((la::fill<M, N>(s)), M, N, (i, j, s), "fill");
    std::size_t calls = 0;
    EACHM((la::generate<M, N>([&](std::size_t i, std::size_t j) { ++calls; return (long) (i * 1000 + j); })), M, N, (long) (i * 1000 + j), "generate");
    CHECK(calls == M * N, "generate makes " << calls << " calls");
    EACHM((la::get_identity<T, M>()), M, M, T(i == j ? 1u : 0u), "get_identity");
    EACHM((la::identity<T, M>), M, M, T(i == j ? 1u : 0u), "identity");
    CHECK(same_m(a, A), "operand changed: " << ctx());
}

template<class T, std::size_t M, std::size_t N> void products(vf::Src &S) {
    auto a = gens<T, M, N>(S);
    const auto A = a;
    auto ctx = [&] {
        std::ostringstream o;
        o << tname<T>() << " " << M << "x" << N << " a=" << show(A);
        return o.str();
    };
    S.note(ctx());
    S.nontrivial(distinct_content(a));
    auto mul = [&](auto W) {
        constexpr std::size_t P = decltype(W)::value;
        auto b = gens<T, N, P>(S);
        auto ref = [&](std::size_t i, std::size_t j) {
            T r = T(0u);
            for (std::size_t k = 0; k < N; ++k) r = (T) (r + A.arrays[i][k] * b.arrays[k][j]);
            return r;
        };
        EACHM(la::matmul(a, b), M, P, ref(i, j), "matmul with " << show(b));
        auto q = gens<T, 2, P>(S);
        EACHM(la::kron(a, q), M * 2, N * P, A.arrays[i / 2][j / P] * q.arrays[i % 2][j % P], "kron with " << show(q));
        auto q2 = gens<T, P, 3>(S);
        EACHM(la::kron(q2, a), P * M, 3 * N, q2.arrays[i / M][j / N] * A.arrays[i % M][j % N], "kron of " << show(q2));
    };
    mul(std::integral_constant<std::size_t, 1>());
    mul(std::integral_constant<std::size_t, 2>());
    mul(std::integral_constant<std::size_t, N>());
    mul(std::integral_constant<std::size_t, 4>());
    V<T, N> v = {};
    V<T, M> w = {};
    for (auto &x : v) x = gen_small<T>(S);
    for (auto &x : w) x = gen_small<T>(S);
    auto mv = [&](std::size_t i) { T r = T(0u); for (std::size_t k = 0; k < N; ++k) r = (T) (r + A.arrays[i][k] * v.array[k]); return r; };
    auto vm = [&](std::size_t j) { T r = T(0u); for (std::size_t k = 0; k < M; ++k) r = (T) (r + w.array[k] * A.arrays[k][j]); return r; };
    EACHV(la::matvectmul(a, v), M, mv(i), "matvectmul by " << show(v));
    EACHV(la::vectmatmul(w, a), N, vm(i), "vectmatmul of " << show(w));
    if constexpr (M == N) {
        T t = T(0u);
        for (std::size_t i = 0; i < M; ++i) t = (T) (t + A.arrays[i][i]);
        CHECK(same(la::trace(a), t), "trace of " << ctx() << " gives " << +la::trace(a));
        EACHM(la::matmul(a, la::get_identity<T, M>()), M, M, A.arrays[i][j], "matmul by the identity");
    }
    if constexpr (is_real<T> && !std::is_unsigned<T>::value) {
        T cs = 0, rs = 0;
        for (std::size_t j = 0; j < N; ++j) {
            T x = 0;
            for (std::size_t i = 0; i < M; ++i) x += A.arrays[i][j] < 0 ? -A.arrays[i][j] : A.arrays[i][j];
            cs = std::max(cs, x);
        }
        for (std::size_t i = 0; i < M; ++i) {
            T x = 0;
            for (std::size_t j = 0; j < N; ++j) x += A.arrays[i][j] < 0 ? -A.arrays[i][j] : A.arrays[i][j];
            rs = std::max(rs, x);
        }
        CHECK(same(la::macs(a), cs), "maximum absolute column sum of " << ctx() << " gives " << la::macs(a));
        CHECK(same(la::mars(a), rs), "maximum absolute row sum of " << ctx() << " gives " << la::mars(a));
    }
    CHECK(same_m(a, A), "operand changed: " << ctx());
}

#define SHAPES(FN)                                                                                \
    template<class T> void FN##_n(vf::Src &S) {                                                   \
        switch (S.u64(12)) {                                                                      \
            case 0: return FN<T, 2, 2>(S);                                                        \
            case 1: return FN<T, 2, 3>(S);                                                        \
            case 2: return FN<T, 3, 2>(S);                                                        \
            case 3: return FN<T, 1, 1>(S);                                                        \
            case 4: return FN<T, 1, 4>(S);                                                        \
            case 5: return FN<T, 4, 1>(S);                                                        \
            case 6: return FN<T, 3, 3>(S);                                                        \
            case 7: return FN<T, 2, 5>(S);                                                        \
            case 8: return FN<T, 5, 2>(S);                                                        \
            case 9: return FN<T, 4, 4>(S);                                                        \
            case 10: return FN<T, 3, 6>(S);                                                       \
            case 12: if constexpr (std::is_same<T, int>::value || std::is_same<T, double>::value) return FN<T, 9, 8>(S); \
            default: return FN<T, 6, 6>(S);                                                       \
        }                                                                                         \
    }
SHAPES(ops) SHAPES(shape) SHAPES(products)
#define BY_TYPE(FN)                                                          \
    template<class... Ts> void FN##_t(vf::Src &S) {                          \
        static void (*const f[])(vf::Src &) = {FN##_n<Ts>...};                \
        f[S.index(sizeof...(Ts))](S);                                        \
    }
BY_TYPE(ops) BY_TYPE(shape) BY_TYPE(products)

PROP(matrix_operators, 4000, 150000, "operands have at least two distinct elements (or a single one)") { ops_t<LA_TYPES>(S); }
PROP(matrix_structure, 4000, 150000, "operand has at least two distinct elements (or a single one)") { shape_t<LA_TYPES>(S); }
PROP(matrix_products, 4000, 150000, "operand has at least two distinct elements (or a single one)") { products_t<LA_TYPES>(S); }
