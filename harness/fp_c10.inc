// C10 on prime fields.
#include "zn.hpp"
using namespace zn;
using namespace nil::crypto3::algebra::fields;
template<class F, class = void> struct has_half : std::false_type { };
template<class F> struct has_half<F, std::void_t<decltype(F::group_order_minus_one_half)>> : std::true_type { };
template<class Fld> struct C10 {
    typedef typename Fld::value_type E;
    typedef typename Fld::integral_type I;
    static const Z &p() { static Z v = from_num(Fld::modulus); return v; }
    static Z val(const E &e) { return from_num(I(e.data)); }
    static void root(vf::Src &S) {
        Z a = draw_mod(S, p());
        if (S.flip()) a = mod(a * a, p());
        S.note("a=", hex(a));
        int l = mpz_legendre(a.get_mpz_t(), p().get_mpz_t());
        S.nontrivial(a > 1);
        const E x(to_num<I>(a));
        if constexpr (has_half<Fld>::value) CHECK(x.is_square() == (l >= 0), "is_square of " << hex(a) << " with Legendre symbol " << l << " modulo " << hex(p()));
        if (l >= 0) {
            E r = x.sqrt();
            Z v = val(r);
            CHECK(v < p() && mod(v * v, p()) == a, "sqrt of " << hex(a) << " is " << hex(v) << " modulo " << hex(p()));
            CHECK(r.squared() == x, "sqrt squared, of " << hex(a));
            if (a == 0) CHECK(r.is_zero(), "sqrt(0)");
        }
        CHECK(val(x) == a, "operand changed");
    }
    static void reg(const char *n) {
        static std::string s = std::string(n) + "_root";
        double scale = bits(p()) > 1000 ? 0.02 : 1;
        double big = bits(p()) > 3000 ? 0 : 1;
        static vf::Reg r(s.c_str(), root, 100 * scale + 1 + big, 5000 * scale + 10, "the element is not zero or one", bits(p()) > 3000 ? 300 : 60);
    }
};
#define R_(N, ...) C10<__VA_ARGS__>::reg(#N);
static int registered = [] { FIELD_LIST(R_) return 0; }();
