// C01: vector operations against their definitions.
#include "la_common.hpp"

template<class T, std::size_t N> using V = la::vector<T, N>;
#ifndef LA_TYPES
#define LA_TYPES int, double
#endif

template<class F, class... T> struct TypeSwitch;
template<class T, std::size_t N, class G> V<T, N> gen(vf::Src &S, G g) {
    V<T, N> v = {};
    for (std::size_t i = 0; i < N; ++i) v[i] = g(S);
    return v;
}
template<class T, std::size_t N> V<T, N> gens(vf::Src &S) { return gen<T, N>(S, gen_small<T>); }
template<class T, std::size_t N> V<T, N> gena(vf::Src &S) {
    // sometimes few distinct values, so that ties are frequent
    if (S.u64(2) == 0) {
        T a = gen_any<T>(S), b = gen_any<T>(S);
        return gen<T, N>(S, [&](vf::Src &s) { return s.flip() ? a : b; });
    }
    return gen<T, N>(S, gen_any<T>);
}
template<class T, std::size_t N> bool bits_same(const V<T, N> &a, const V<T, N> &b) {
    for (std::size_t i = 0; i < N; ++i) if (!same(a.array[i], b.array[i])) return false;
    return true;
}
template<class T, std::size_t N> bool distinct_content(const V<T, N> &a) {
    for (std::size_t i = 1; i < N; ++i) if (!same(a.array[i], a.array[0])) return true;
    return N == 1;
}
#define EACH(R, EXPR, WHAT)                                                                              \
    do {                                                                                                 \
        auto r_ = R;                                                                                     \
        static_assert(decltype(r_)::size > 0, "");                                                       \
        for (std::size_t i = 0; i < decltype(r_)::size; ++i)                                             \
            CHECK(same(r_.array[i], std::decay_t<decltype(r_.array[i])>(EXPR)), WHAT << " on " << ctx() << " gives " << show(r_)); \
    } while (0)
#define EACH_NEAR(R, EXPR, WHAT)                                                                         \
    do {                                                                                                 \
        auto r_ = R;                                                                                     \
        for (std::size_t i = 0; i < decltype(r_)::size; ++i)                                             \
            CHECK(near(r_.array[i], EXPR), WHAT << " on " << ctx() << " gives " << show(r_));             \
    } while (0)

template<class T, std::size_t N> void ops(vf::Src &S) {
    V<T, N> a = gens<T, N>(S), b = gens<T, N>(S);
    V<T, N> nz = gen<T, N>(S, gen_nonzero<T>);
    T s = gen_small<T>(S);
    const V<T, N> a0 = a, b0 = b;
    auto ctx = [&] {
        std::ostringstream o;
        o << "vector<" << tname<T>() << "," << N << "> a=" << show(a0) << " b=" << show(b0) << " nz=" << show(nz) << " s=" << +s;
        return o.str();
    };
    S.note(ctx());
    S.nontrivial(distinct_content(a) && distinct_content(b));
    using R = T;
    EACH(a + b, (R) (a0.array[i] + b0.array[i]), "a+b");
    EACH(a * b, (R) (a0.array[i] * b0.array[i]), "a*b");
    EACH(a + s, (R) (a0.array[i] + s), "a+s");
    EACH(s + a, (R) (s + a0.array[i]), "s+a");
    EACH(a * s, (R) (a0.array[i] * s), "a*s");
    EACH(s * a, (R) (s * a0.array[i]), "s*a");
    EACH_NEAR(a / nz, (R) (a0.array[i] / nz.array[i]), "a/nz");
    EACH_NEAR(s / nz, (R) (s / nz.array[i]), "s/nz");
    // comparison: equal exactly when every component is
    V<T, N> c = a;
    CHECK((a == c) && !(a != c), "copy differs: " << ctx());
    bool eq = true;
    for (std::size_t i = 0; i < N; ++i) eq = eq && (a0.array[i] == b0.array[i]);
    CHECK((a == b) == eq && (a != b) == !eq, "comparison of a and b: " << ctx());
    std::size_t k = S.index(N);
    c[k] = c[k] + T(1u);
    bool differs = !(c[k] == a[k]);
    CHECK((a == c) == !differs && (a != c) == differs, "differs only at " << k << ": " << ctx());
    CHECK(bits_same(a, a0) && bits_same(b, b0), "operand changed: " << ctx());
    // element access and iteration
    const V<T, N> &ca = a;
    std::size_t cnt = 0;
    for (auto &x : a) { CHECK(&x == &a[cnt] && &x == a.begin() + cnt, "iteration"); ++cnt; }
    CHECK(cnt == N && (std::size_t) (a.end() - a.begin()) == N && (std::size_t) (ca.cend() - ca.cbegin()) == N &&
              (V<T, N>::size == N) && ca.cbegin() == &ca[0], "size/iterators of " << ctx());
    V<T, N> w = a;
    w[k] = s;
    for (std::size_t i = 0; i < N; ++i) CHECK(same(w[i], i == k ? s : a0.array[i]), "write at " << k << ": " << ctx());
}

template<class T, std::size_t N> void folds(vf::Src &S) {
    V<T, N> a = gens<T, N>(S), b = gens<T, N>(S);
    const V<T, N> a0 = a;
    auto ctx = [&] {
        std::ostringstream o;
        o << "vector<" << tname<T>() << "," << N << "> a=" << show(a0) << " b=" << show(b);
        return o.str();
    };
    S.note(ctx());
    S.nontrivial(distinct_content(a));
    T sum = T(0u), d = T(0u);
    for (std::size_t i = 0; i < N; ++i) {
        sum = (T) (sum + a0.array[i]);
        if constexpr (is_cx<T>) d = d + a0.array[i] * T(b.array[i].real(), -b.array[i].imag());
        else d = (T) (d + a0.array[i] * b.array[i]);
    }
    CHECK(same(la::sum(a), sum), "sum of " << ctx() << " gives " << +la::sum(a));
    if constexpr (!std::is_same<T, NC>::value) {
        T g = la::dot(a, b);
        CHECK(same(g, d), "dot of " << ctx() << " gives " << +g);
    }
    // order-sensitive fold, with an accumulator of another type
    std::vector<T> seen;
    std::size_t n = la::accumulate(a, (std::size_t) 5, [&seen](std::size_t acc, T x) { seen.push_back(x); return acc * 3 + 1; });
    std::size_t ref = 5;
    for (std::size_t i = 0; i < N; ++i) ref = ref * 3 + 1;
    CHECK(n == ref && seen.size() == N, "accumulate visits " << seen.size() << " of " << ctx());
    for (std::size_t i = 0; i < N; ++i) CHECK(same(seen[i], a0.array[i]), "accumulate order: " << ctx());
    T l = la::accumulate(a, b[0], [](T x, T y) { return (T) (y - x); });
    T lr = b[0];
    for (std::size_t i = 0; i < N; ++i) lr = (T) (a0.array[i] - lr);
    CHECK(near(l, lr), "left fold of " << ctx() << " gives " << +l << " expected " << +lr);
    // elementwise, one, two and three operands, result of another type
    EACH(la::elementwise([](T x) { return (T) (x + x); }, a), (T) (a0.array[i] + a0.array[i]), "elementwise/1");
    EACH(la::elementwise([](T x, T y) { return (T) (x - y); }, a, b), (T) (a0.array[i] - b.array[i]), "elementwise/2");
    V<T, N> c = la::elementwise([](T x, T y) { return (T) (x - y); }, b, a);
    EACH(la::elementwise([](T x, T y, T z) { return (T) (x - y * z); }, a, b, c), (T) (a0.array[i] - b.array[i] * c.array[i]),
         "elementwise/3");
    V<int, N> flags = {};
    for (std::size_t i = 0; i < N; ++i) flags[i] = (int) (i * i % 5);
    EACH(la::elementwise([](T x, int f) { return (long) (f + (x == T(0u) ? 100 : 0)); }, a, flags),
         (long) (flags.array[i] + (a0.array[i] == T(0u) ? 100 : 0)), "elementwise of mixed types");
    CHECK(bits_same(a, a0), "operand changed: " << ctx());
    // complex parts and conjugates
    if constexpr (is_cx<T>) {
        EACH(la::conj(a), T(a0.array[i].real(), -a0.array[i].imag()), "conj");
        EACH(la::real(a), a0.array[i].real(), "real");
        EACH(la::imag(a), a0.array[i].imag(), "imag");
    } else {
        EACH(la::conj(a), a0.array[i], "conj of reals");
        if constexpr (is_fl<T>) {
            EACH(la::real(a), a0.array[i], "real of reals");
            EACH(la::imag(a), (T) 0, "imag of reals");
        }
    }
}

template<class T, std::size_t N> void order(vf::Src &S) {
    if constexpr (is_real<T>) {
        V<T, N> a = gena<T, N>(S);
        const V<T, N> a0 = a;
        auto ctx = [&] {
            std::ostringstream o;
            o << "vector<" << tname<T>() << "," << N << "> a=" << show(a0);
            return o.str();
        };
        S.note(ctx());
        S.nontrivial(N > 1 && distinct_content(a));
        std::size_t lo = 0, hi = 0;
        for (std::size_t i = 1; i < N; ++i) {
            if (a0.array[i] < a0.array[lo]) lo = i;
            if (a0.array[i] > a0.array[hi]) hi = i;
        }
        CHECK(la::min(a) == a0.array[lo], "min of " << ctx() << " gives " << +la::min(a));
        CHECK(la::max(a) == a0.array[hi], "max of " << ctx() << " gives " << +la::max(a));
        CHECK(la::min_index(a) == lo, "min_index of " << ctx() << " gives " << la::min_index(a));
        CHECK(la::max_index(a) == hi, "max_index of " << ctx() << " gives " << la::max_index(a));
        CHECK(bits_same(a, a0), "operand changed: " << ctx());
        bool absok = !std::is_unsigned<T>::value;
        if constexpr (std::is_integral<T>::value)
            for (std::size_t i = 0; i < N; ++i) absok = absok && a0.array[i] != std::numeric_limits<T>::min();
        if (absok) EACH(la::abs(a), (T) (a0.array[i] < 0 ? -a0.array[i] : a0.array[i]), "abs");
        // comparison of arbitrary values, signed zeros and NaN included
        V<T, N> b = S.flip() ? gena<T, N>(S) : a;
        if (S.flip()) b[S.index(N)] = gen_any<T>(S);
        if constexpr (is_fl<T>) {
            if (S.u64(3) == 0) b[S.index(N)] = std::numeric_limits<T>::quiet_NaN();
            if (S.u64(3) == 0) { std::size_t k = S.index(N); a[k] = b[k] = std::numeric_limits<T>::quiet_NaN(); }
            if (S.u64(3) == 0) { std::size_t k = S.index(N); a[k] = (T) 0; b[k] = -(T) 0; }
        }
        bool eq = true;
        for (std::size_t i = 0; i < N; ++i) eq = eq && (a.array[i] == b.array[i]);
        CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "comparison of " << show(a) << " and " << show(b));
        a = a0;
        // cast
        if constexpr (std::is_integral<T>::value) {
            EACH(la::cast<double>(a), (double) a0.array[i], "cast to double");
            EACH(la::cast<unsigned char>(a), (unsigned char) a0.array[i], "cast to unsigned char");
            EACH(la::cast<long long>(a), (long long) a0.array[i], "cast to long long");
        } else {
            V<T, N> m = gens<T, N>(S);
            EACH(la::cast<int>(m), (int) m.array[i], "cast to int of " << show(m));
            EACH(la::cast<long long>(m), (long long) m.array[i], "cast to long long of " << show(m));
            EACH(la::cast<std::complex<T>>(a), std::complex<T>(a0.array[i]), "cast to complex");
        }
    } else DISCARD_UNLESS(false);
}

template<class T, std::size_t N> void structure(vf::Src &S) {
    V<T, N> a = gena<T, N>(S);
    // make every component distinguishable when the type allows it
    if constexpr (is_real<T>) if (S.flip()) for (std::size_t i = 0; i < N; ++i) a[i] = (T) (a[0] / 4 + (T) (i * 3));
    const V<T, N> a0 = a;
    auto ctx = [&] {
        std::ostringstream o;
        o << "vector<" << tname<T>() << "," << N << "> a=" << show(a0);
        return o.str();
    };
    long n;
    switch (S.u64(6)) {
        case 0: n = 0; break;
        case 1: n = (long) S.u64(2 * N); break;
        case 2: n = -(long) S.u64(2 * N); break;
        case 3: n = (long) N * S.range(-3, 3) + S.range(-1, 1); break;
        case 4: n = S.range(-100000, 100000); break;
        case 5: n = std::numeric_limits<int>::max() - (long) N - (long) S.u64(5); break;
        default: n = -(long) S.u64(2000000);
    }
    S.note(ctx(), " rotate by ", n);
    S.nontrivial(N > 1 && n % (long) N != 0 && distinct_content(a));
    long base = ((n % (long) N) + (long) N) % (long) N;
    EACH(la::rotate(a, (int) n), a0.array[(i + (std::size_t) base) % N], "rotate by " << n);
    // every slice width, at a generated start
    auto slices = [&](auto W) {
        constexpr std::size_t M = decltype(W)::value;
        if constexpr (M <= N) {
            std::size_t start = S.index(N - M + 1);
            EACH((la::slice<M>(a, start)), a0.array[start + i], "slice<" << M << "> at " << start);
            EACH((la::slice<M>(a)), a0.array[i], "slice<" << M << ">");
        }
    };
    slices(std::integral_constant<std::size_t, 1>());
    slices(std::integral_constant<std::size_t, 2>());
    slices(std::integral_constant<std::size_t, 3>());
    slices(std::integral_constant<std::size_t, 5>());
    slices(std::integral_constant<std::size_t, N>());
    if constexpr (N > 1) slices(std::integral_constant<std::size_t, N - 1>());
    auto cat = [&](auto W) {
        constexpr std::size_t M = decltype(W)::value;
        V<T, M> b = gena<T, M>(S);
        EACH(la::concat(a, b), (i < N ? a0.array[i] : b.array[i - N]), "concat with " << show(b));
        EACH(la::concat(b, a), (i < M ? b.array[i] : a0.array[i - M]), "concat after " << show(b));
    };
    cat(std::integral_constant<std::size_t, 1>());
    cat(std::integral_constant<std::size_t, 2>());
    cat(std::integral_constant<std::size_t, 4>());
    CHECK(bits_same(a, a0), "operand changed: " << ctx());
}

template<class T, std::size_t N> void generators(vf::Src &S) {
    T s = gen_small<T>(S);
    auto ctx = [&] {
        std::ostringstream o;
        o << "<" << tname<T>() << "," << N << "> start=" << +s;
        return o.str();
    };
    S.note(ctx());
    S.nontrivial(!(s == T(0u)));
    EACH((la::fill<N>(s)), s, "fill");
    if constexpr (!std::is_same<T, NC>::value) {
        T x = s;
        V<T, N> it = la::iota<N, T>(s);
        for (std::size_t i = 0; i < N; ++i) {
            CHECK(same(it.array[i], x), "iota from " << ctx() << " gives " << show(it));
            x = (T) (x + T(1u));
        }
        V<T, N> iz = la::iota<N, T>();
        for (std::size_t i = 0; i < N; ++i) CHECK(same(iz.array[i], T((unsigned) i)), "iota from default gives " << show(iz));
    }
    std::size_t calls = 0;
    auto gv = la::generate<N>([&](std::size_t i) { ++calls; return (T) (s + T((unsigned) (i * i))); });
    static_assert(std::is_same<decltype(gv), V<T, N>>::value, "generate has the function's result type");
    CHECK(calls == N, "generate calls " << calls);
    EACH(gv, (T) (s + T((unsigned) (i * i))), "generate");
    if constexpr (N >= 2 && is_fl<T>) {
        // a grid whose step is exact
        T step = (T) S.integer(64) / (T) 8;
        T top = (T) (s + step * (T) (N - 1));
        auto l = la::linspace<N>(s, top);
        CHECK((std::is_same<decltype(l), V<T, N>>::value), "");
        for (std::size_t i = 0; i < N; ++i)
            CHECK(near(l.array[i], (T) (s + step * (T) i)), "linspace from " << ctx() << " to " << +top << " gives " << show(l));
    }
    if constexpr (is_fl<T>) {
        V<T, N> p = {};
        for (std::size_t i = 0; i < N; ++i) p[i] = (T) std::fabs((double) gen_small<T>(S));
        EACH_NEAR(la::sqrt(p), (T) std::sqrt((double) p.array[i]), "sqrt of " << show(p));
    }
}

template<template<class, std::size_t> class F> struct Wrap;
#define SIZES(FN)                                                                                \
    template<class T> void FN##_n(vf::Src &S) {                                                   \
        switch (S.pick({2, 3, 1, 4, 5, 7, 8, 9, 16, 33})) {                                                  \
            case 1: return FN<T, 1>(S);                                                           \
            case 2: return FN<T, 2>(S);                                                           \
            case 3: return FN<T, 3>(S);                                                           \
            case 4: return FN<T, 4>(S);                                                           \
            case 5: return FN<T, 5>(S);                                                           \
            case 7: return FN<T, 7>(S);                                                           \
            case 8: return FN<T, 8>(S);                                                           \
            case 16: return FN<T, 16>(S);                                                         \
            case 33: return FN<T, 33>(S);                                                         \
            default: return FN<T, 9>(S);                                                          \
        }                                                                                         \
    }
SIZES(ops) SIZES(folds) SIZES(order) SIZES(structure) SIZES(generators)

template<class... Ts> struct Types {
    static void run(vf::Src &S, std::initializer_list<void (*)(vf::Src &)> l) { l.begin()[S.index(l.size())](S); }
};
#define BY_TYPE(FN)                                                          \
    template<class... Ts> void FN##_t(vf::Src &S) {                          \
        static void (*const f[])(vf::Src &) = {FN##_n<Ts>...};                \
        f[S.index(sizeof...(Ts))](S);                                        \
    }
BY_TYPE(ops) BY_TYPE(folds) BY_TYPE(order) BY_TYPE(structure) BY_TYPE(generators)

PROP(vector_operators, 5000, 300000, "operands have at least two distinct components (or a single one)") { ops_t<LA_TYPES>(S); }
PROP(vector_folds, 5000, 300000, "operand has at least two distinct components (or a single one)") { folds_t<LA_TYPES>(S); }
PROP(vector_order, 5000, 300000, "more than one component, not all equal") { order_t<LA_TYPES>(S); }
PROP(vector_structure, 4000, 200000, "rotation is not a multiple of the length and components differ") { structure_t<LA_TYPES>(S); }
PROP(vector_generators, 4000, 200000, "start value is not zero") { generators_t<LA_TYPES>(S); }

#ifdef LA_FIRST
PROP(vector_construction, 2000, 50000, "values differ") {
    int a = (int) S.integer(1000), b = (int) S.integer(1000), c = (int) S.integer(1000);
    S.note("make_vector(", a, ",", b, ",", c, ")");
    S.nontrivial(a != b || b != c);
    auto v = la::make_vector(a, b, c);
    static_assert(std::is_same<decltype(v), la::vector<int, 3>>::value, "");
    CHECK(v[0] == a && v[1] == b && v[2] == c, "make_vector gives " << show(v));
    la::vector u {b, a};
    static_assert(std::is_same<decltype(u), la::vector<int, 2>>::value, "");
    CHECK(u[0] == b && u[1] == a, "vector{b,a} gives " << show(u));
    la::vector w {{a, b, c}};
    static_assert(std::is_same<decltype(w), la::vector<int, 3>>::value, "");
    CHECK(w == v, "vector{{a,b,c}} gives " << show(w));
    auto one = la::make_vector((double) a);
    CHECK(one[0] == a && one.size == 1, "make_vector of one");
    la::vector<int, 4> part {a, b};
    CHECK(part[0] == a && part[1] == b && part[2] == 0 && part[3] == 0, "partial aggregate initialisation");
}
#endif
