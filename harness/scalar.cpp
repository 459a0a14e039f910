// C04: scalar functions against long-double and exact references.
#include "la_common.hpp"
#include <cfloat>

static double gen_nonneg(vf::Src &S) {
    switch (S.u64(9)) {
        case 0: return (double) S.u64(20);
        case 1: return (double) S.u64(1000) * (double) S.u64(1000);
        case 2: return (double) S.u64(1u << 20) / (double) (1u << 10);
        case 3: return std::ldexp(1 + (double) S.u64(~0ull >> 12) / 4503599627370496.0, (int) S.range(-1022, 1023));
        case 4: return std::ldexp(1.0, (int) S.range(-1074, 1023));
        case 5: { double b = std::ldexp((double) S.u64(100), (int) S.range(-400, 400)); return std::nextafter(b, S.flip() ? INFINITY : 0); }
        case 6: return S.pick({0.0, DBL_MAX, DBL_MIN, DBL_TRUE_MIN, 1.0, DBL_EPSILON, 1 - DBL_EPSILON / 2, 1 + DBL_EPSILON});
        case 7: { std::uint64_t b = S.u64((0x7ffull << 52) - 1); double x; std::memcpy(&x, &b, 8); return x; }
        case 8: { double r = (double) S.u64(1u << 26); return r * r; }
        default: return std::ldexp((double) S.u64(~0ull >> 12), -1074);    // subnormal
    }
}
static double ulps(double got, long double want) {
    if ((long double) got == want) return 0;
    if (!std::isfinite(got)) return INFINITY;
    double w = (double) want;
    double u = std::nextafter(std::fabs(w), INFINITY) - std::fabs(w);
    return (double) (std::fabs((long double) got - want) / u);
}
PROP(scalar_sqrt, 60000, 6000000, "argument is not zero or one") {
    double x = gen_nonneg(S);
    S.note("sqrt(", std::hexfloat, x, ")");
    S.nontrivial(x != 0 && x != 1);
    double r = la::sqrt(x);
    CHECK(ulps(r, sqrtl((long double) x)) <= 4, "sqrt(" << std::hexfloat << x << ") gives " << r << " instead of " << std::sqrt(x));
    float f = (float) x;
    if (std::isfinite(f)) {
        float rf = la::sqrt(f);
        CHECK(std::fabs(rf - std::sqrt(f)) <= 2 * FLT_EPSILON * std::sqrt(f), "sqrt(" << std::hexfloat << f << "f) gives " << rf);
    }
    if (x > 0) {
        bool refused = false;
        try { la::sqrt(-x); } catch (const char *) { refused = true; }
        CHECK(refused, "sqrt(" << std::hexfloat << -x << ") is not refused");
    }
    double k = (double) S.u64(94906265);    // exact squares
    CHECK(la::sqrt(k * k) == k, "sqrt(" << k << "^2) gives " << la::sqrt(k * k));
}
PROP(scalar_nthroot, 6000, 400000, "argument is not zero or one and the degree is at least 2") {
    double x = gen_nonneg(S);
    int n = S.u64(3) ? (int) S.range(1, 12) : (int) S.range(1, 64);
    S.note("nthroot(", std::hexfloat, x, ", ", n, ")");
    S.nontrivial(x != 0 && x != 1 && n > 1);
    double r = la::nthroot(x, n);
    long double w = x == 0 ? 0 : n == 1 ? (long double) x : powl((long double) x, 1.0L / n);
    // powers of the iterates leave the normal range below this: less precision is all that is asked there
    bool tiny = x < DBL_MIN / DBL_EPSILON;
    CHECK(tiny ? std::fabs(r - w) <= 1e-4 * w + DBL_TRUE_MIN : ulps(r, w) <= 8, "nthroot(" << std::hexfloat << x << ", " << n << ") gives " << r << " instead of " << (double) w);
    if (x > 0) {
        bool refused = false;
        try { la::nthroot(-x, n); } catch (const char *) { refused = true; }
        CHECK(refused, "nthroot of a negative number is not refused");
    }
}
PROP(scalar_exponentiate, 100000, 6000000, "exponent is not 0 or 1 and base is not 0 or 1") {
    double x;
    int n;
    switch (S.u64(6)) {
        case 6: {    // a result anywhere in the range of double, subnormal numbers included
            n = (int) S.range(1, 2000);
            x = std::exp2((double) S.range(-1076, 1022) / n);
            if (S.flip()) { n = -n; x = 1 / x; }
            if (S.one_in(4)) { x = S.pick({2.0, 0.5}); n = (int) S.range(-1074, 1020); }
            if (S.flip()) x = -x;
            break;
        }
        case 0: x = (double) S.integer(20); n = (int) S.integer(40); break;
        case 1: x = (double) S.integer(1000) / 16; n = (int) S.integer(100); break;
        case 2: x = 1 + (double) S.integer(1000000) * 1e-9; n = (int) S.integer(100000); break;
        case 3: x = S.pick({1.0, -1.0, 2.0, 0.5, -2.0}); n = S.pick({INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, 1, -1, 0}); break;
        case 4: x = gen_nonneg(S); if (S.flip()) x = -x; n = (int) S.integer(6); break;
        default: x = std::ldexp(S.flip() ? 1.0 : -1.0, (int) S.range(-30, 30)); n = (int) S.range(-34, 34);
    }
    S.note("exponentiate(", std::hexfloat, x, ", ", std::dec, n, ")");
    S.nontrivial(n != 0 && n != 1 && x != 0 && x != 1);
    double r = la::exponentiate(x, n);
    // exact integer powers through long double only where long double is exact enough
    long double w = n == 0 ? 1.0L : powl((long double) x, (long double) n);
    if (x == 0 && n < 0) { CHECK(std::isinf(r), "0^" << n); return; }
    DISCARD_UNLESS(!std::isnan((double) w));
    double aw = std::fabs((double) w);
    if (aw > DBL_MAX / 4) return;    // overflow: not representable
    if (n < 0 && 1 / std::fabs(x) < DBL_MIN) return;    // 1/x leaves the normal range, its rounding error is amplified
    long double err = fabsl((long double) r - w);
    CHECK(err <= (long double) DBL_EPSILON * (4 + 2.0L * fabsl((long double) n)) * fabsl(w) + 4 * std::numeric_limits<double>::denorm_min(),
          "exponentiate(" << std::hexfloat << x << ", " << std::dec << n << ") gives " << r << " instead of " << (double) w);
    if (n >= 0 && x == std::floor(x) && aw < 9e15) CHECK((long double) r == w, "integer power " << x << "^" << n << " gives " << r);
}
template<class T> static void abs_conj(vf::Src &S) {
    T x = gen_any<T>(S);
    if constexpr (std::is_integral<T>::value && std::is_signed<T>::value) if (x == std::numeric_limits<T>::min()) x = std::numeric_limits<T>::max();
    S.note("abs/conj(", +x, ")");
    S.nontrivial(!(x == T(0)));
    CHECK(la::abs(x) == (x < T(0) ? (T) -x : x), "abs(" << +x << ") gives " << +la::abs(x));
    CHECK(la::conj(x) == x, "conj(" << +x << ")");
}
PROP(scalar_abs_conj, 30000, 2000000, "argument is not zero") {
    switch (S.u64(7)) {
        case 0: return abs_conj<int>(S);
        case 1: return abs_conj<long long>(S);
        case 2: return abs_conj<double>(S);
        case 3: return abs_conj<float>(S);
        case 4: return abs_conj<short>(S);
        case 5: return abs_conj<unsigned>(S);
        default: {
            std::complex<double> z((double) S.integer(100000) / 8, (double) S.integer(100000) / 8);
            if (S.flip()) z = std::complex<double>(z.real() * 1e100, z.imag() * 1e99);
            S.note("abs/conj(", z, ")");
            S.nontrivial(z.imag() != 0);
            CHECK(la::conj(z) == std::complex<double>(z.real(), -z.imag()), "conj(" << z << ") gives " << la::conj(z));
            double r = la::abs(z), w = std::hypot(z.real(), z.imag());
            CHECK(std::fabs(r - w) <= 4 * DBL_EPSILON * w, "abs(" << z << ") gives " << r << " instead of " << w);
            std::complex<float> y((float) S.integer(1000) / 8, (float) S.integer(1000) / 8);
            CHECK(la::conj(y) == std::complex<float>(y.real(), -y.imag()), "conj(" << y << ")");
            float rf = la::abs(y), wf = std::hypot(y.real(), y.imag());
            CHECK(std::fabs(rf - wf) <= 4 * FLT_EPSILON * wf, "abs(" << y << ") gives " << rf << " instead of " << wf);
        }
    }
}
