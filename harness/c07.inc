// C07 on prime fields: every published constant against its defining equation.
#include "zn.hpp"
using namespace zn;
using namespace nil::crypto3::algebra::fields;
struct Published { const char *name, *modulus; std::vector<const char *> factors; long dh; };
static const Published &published(const char *n) {
    static std::vector<Published> t = {PUBLISHED_TABLE};
    for (auto &p : t) if (!std::strcmp(p.name, n)) return p;
    static Published none{};
    return none;
}
#define MEMBER(m) \
    template<class T, class = void> struct has_##m : std::false_type { }; \
    template<class T> struct has_##m<T, std::void_t<decltype(T::m)>> : std::true_type { };
MEMBER(s) MEMBER(t) MEMBER(t_minus_1_over_2) MEMBER(arithmetic_generator) MEMBER(geometric_generator) MEMBER(multiplicative_generator)
MEMBER(root_of_unity) MEMBER(nqr) MEMBER(nqr_to_t) MEMBER(Rsquared) MEMBER(Rcubed) MEMBER(group_order) MEMBER(group_order_minus_one_half)
MEMBER(mul_generator) MEMBER(modulus) MEMBER(modulus_bits) MEMBER(number_bits) MEMBER(value_bits) MEMBER(arity)
template<class F, class = void> struct has_arith : std::false_type { };
template<class F> struct has_arith<F, std::void_t<decltype(sizeof(arithmetic_params<F>))>> : std::true_type { };

template<class F> struct C07 {
    static const char *&name() { static const char *n; return n; }
    static const Z &p() { static Z v = from_num(F::modulus); return v; }
    static Z pw(const Z &a, const Z &e) { return powm(a, e, p()); }
    // prime factors of p-1 below 2^12 and those of the table
    static const std::vector<Z> &factors() {
        static std::vector<Z> v = [] {
            std::vector<Z> r;
            Z m = p() - 1;
            for (unsigned long q = 2; q < 4096; ++q)
                if (mpz_divisible_ui_p(m.get_mpz_t(), q)) { r.push_back(q); while (mpz_divisible_ui_p(m.get_mpz_t(), q)) m /= q; }
            for (const char *h : published(name()).factors) { Z q(h, 16); if (q > 4096 && (p() - 1) % q == 0) r.push_back(q); }
            if (m > 1 && bits(m) < 1100 && prime(m)) r.push_back(m);
            return r;
        }();
        return v;
    }
    static std::size_t twos() { return mpz_scan1(Z(p() - 1).get_mpz_t(), 0); }
    static void generator(const Z &g, const char *what) {
        CHECK(g > 0 && g < p(), what << " " << hex(g) << " is no residue");
        for (auto &q : factors()) CHECK(pw(g, (p() - 1) / q) != 1, name() << ": " << what << " " << hex(g) << " does not generate: its order misses the factor " << hex(q));
    }
    template<class A> static void constants(const char *where) {
        const std::string W = std::string(name()) + " " + where + ": ";
        const std::size_t s = twos();
        const Z odd = (p() - 1) >> s;
        if constexpr (has_modulus<A>::value) CHECK(from_num(A::modulus) == p(), W << "modulus differs from the field's");
        if constexpr (has_modulus_bits<A>::value) CHECK(A::modulus_bits == bits(p()), W << "modulus_bits is " << A::modulus_bits << ", the modulus has " << bits(p()));
        if constexpr (has_number_bits<A>::value) CHECK(A::number_bits == bits(p()), W << "number_bits is " << A::number_bits);
        if constexpr (has_value_bits<A>::value) CHECK(A::value_bits == bits(p()), W << "value_bits is " << A::value_bits);
        if constexpr (has_arity<A>::value) CHECK(A::arity == 1, W << "arity is " << A::arity);
        if constexpr (has_s<A>::value) CHECK(A::s == s, W << "s is " << A::s << ", the two-adicity is " << s);
        if constexpr (has_t<A>::value) CHECK(from_num(A::t) == odd, W << "t is " << hex(from_num(A::t)));
        if constexpr (has_t_minus_1_over_2<A>::value) CHECK(from_num(A::t_minus_1_over_2) == (odd - 1) / 2, W << "t_minus_1_over_2 is " << hex(from_num(A::t_minus_1_over_2)));
        if constexpr (has_arithmetic_generator<A>::value) CHECK(from_num(A::arithmetic_generator) == 1, W << "arithmetic generator (the step of the sequence 0, g, 2g, ...)");
        if constexpr (has_geometric_generator<A>::value) CHECK(from_num(A::geometric_generator) == 2, W << "geometric generator");
        if constexpr (has_multiplicative_generator<A>::value) generator(from_num(A::multiplicative_generator), "multiplicative_generator");
        if constexpr (has_root_of_unity<A>::value) {
            Z w = from_num(A::root_of_unity), h = 1;
            h <<= s - 1;
            CHECK(w < p() && pw(w, h) == p() - 1, W << "root_of_unity " << hex(w) << " has not order exactly 2^" << s);
            if constexpr (has_s<A>::value) CHECK(pw(w, Z(1) << (A::s - 1)) == p() - 1, W << "order of root_of_unity against s");
        }
        if constexpr (has_nqr<A>::value) {
            Z q = from_num(A::nqr);
            CHECK(mpz_legendre(q.get_mpz_t(), p().get_mpz_t()) == -1, W << "nqr " << hex(q) << " is a square");
            if constexpr (has_nqr_to_t<A>::value) CHECK(from_num(A::nqr_to_t) == pw(q, odd), W << "nqr_to_t is " << hex(from_num(A::nqr_to_t)));
        }
        Z R = Z(1) << (bits(p()) + 63) / 64 * 64;
        if constexpr (has_Rsquared<A>::value) CHECK(from_num(A::Rsquared) == mod(R * R, p()), W << "Rsquared is " << hex(from_num(A::Rsquared)));
        if constexpr (has_Rcubed<A>::value) CHECK(from_num(A::Rcubed) == mod(mod(R * R, p()) * R, p()), W << "Rcubed is " << hex(from_num(A::Rcubed)));
        if constexpr (has_group_order<A>::value) { Z g = from_num(A::group_order); CHECK(g == (p() - 1) / 2 || g == p() - 1, W << "group_order is " << hex(g)); }
        if constexpr (has_group_order_minus_one_half<F>::value) if constexpr (has_group_order_minus_one_half<A>::value) CHECK(from_num(A::group_order_minus_one_half) == (p() - 1) / 2, W << "group_order_minus_one_half is " << hex(from_num(A::group_order_minus_one_half)));
        if constexpr (has_mul_generator<A>::value) {
            Z g = from_num(A::mul_generator);
            if (long d = published(name()).dh) {    // Diffie-Hellman groups: the published base, of order (p-1)/2 or p-1
                CHECK(g == d, W << "mul_generator is " << hex(g) << ", the published base is " << d);
                Z l = pw(g, (p() - 1) / 2);
                CHECK(l == 1 || l == p() - 1, W << "order of mul_generator");
            } else generator(g, "mul_generator");
        }
    }
    static void constants_case(vf::Src &S) {
        const Published &pub = published(name());
        if (pub.modulus) CHECK(p() == Z(pub.modulus, 16), name() << ": the modulus is " << hex(p()) << ", the standard one is 0x" << pub.modulus);
        // a random Miller-Rabin witness decides primality
        Z a = 2 + mod(draw_bits(S, bits(p())), p() - 3);
        S.note("witness=", hex(a));
        S.nontrivial(a > 3);
        std::size_t s = twos();
        Z x = pw(a, (p() - 1) >> s);
        bool ok = x == 1 || x == p() - 1;
        for (std::size_t i = 1; i < s && !ok; ++i) { x = mod(x * x, p()); ok = x == p() - 1; }
        CHECK(ok, name() << ": " << hex(a) << " witnesses that the modulus " << hex(p()) << " is not prime");
        Z R;    // a random small divisor
        unsigned long q = 3 + 2 * S.u64(1 << 20);
        CHECK(p() <= q || !mpz_divisible_ui_p(p().get_mpz_t(), q), name() << ": " << q << " divides the modulus");
        // random relations: half-order and odd part as exponents
        if constexpr (has_group_order_minus_one_half<F>::value) {
            Z v = pw(a, from_num(F::group_order_minus_one_half));
            CHECK(mpz_legendre(a.get_mpz_t(), p().get_mpz_t()) == (v == 1 ? 1 : -1) && (v == 1 || v == p() - 1), name() << ": a^group_order_minus_one_half for a=" << hex(a));
        }
        constants<F>("field");
        constants<params<F>>("params");
        if constexpr (has_arith<F>::value) {
            typedef arithmetic_params<F> A;
            if constexpr (has_t<A>::value && has_s<A>::value) {
                Z v = pw(a, from_num(A::t));
                for (std::size_t i = 0; i < A::s; ++i) v = mod(v * v, p());
                CHECK(v == 1, name() << ": a^(t*2^s) is not one for a=" << hex(a));
            }
            constants<A>("arithmetic_params");
        }
    }
    static void reg(const char *n) {
        name() = n;
        static std::string s = std::string(n) + "_constants";
        bool big = bits(p()) > 1000;
        static vf::Reg r(s.c_str(), constants_case, big ? 1 : 12, big ? 6 : 400, "the witness is above 3", 60);
    }
};
#define R_(N, ...) C07<__VA_ARGS__>::reg(#N);
static int registered = [] { FIELD_LIST(R_) return 0; }();
