// C06: element_fp against GMP arithmetic modulo the field's prime.
#include "zn.hpp"
#include <functional>
#include <map>
using namespace zn;
namespace fields = nil::crypto3::algebra::fields;
using namespace nil::crypto3::algebra::fields;

template<class Fld> struct C06 {
    typedef typename Fld::value_type E;
    typedef typename Fld::integral_type I;
    static const Z &p() { static Z v = from_num(Fld::modulus); return v; }
    static Z val(const E &e) { return from_num(I(e.data)); }
    static E elt(const Z &v) { return E(to_num<I>(v)); }
    static std::string ctx(const Z &a, const Z &b) { return " a=" + hex(a) + " b=" + hex(b) + " modulo " + hex(p()); }

    // one binary/unary relation
    static void arith(vf::Src &S) {
        Z a = draw_mod(S, p()), b = S.one_in(5) ? a : S.one_in(6) ? mod(p() - a, p()) : draw_mod(S, p());
        S.note("a=", hex(a), " b=", hex(b));
        S.nontrivial(a > 1 && b > 1);
        const E x = elt(a), y = elt(b);
#define IS(EXPR, REF) do { Z vf_r = val(EXPR); Z vf_e = mod(Z(REF), p()); CHECK(vf_r == vf_e, #EXPR " gives " << hex(vf_r) << " instead of " << hex(vf_e) << ctx(a, b)); } while (0)
        IS(x, a);
        IS(x + y, a + b);
        IS(x - y, a - b);
        IS(y - x, b - a);
        IS(x * y, a * b);
        IS(-x, -a);
        IS(x.doubled(), 2 * a);
        IS(x.squared(), a * a);
        { E t = x; IS(t += y, a + b); IS(t, a + b); IS(y, b); }
        { E t = x; IS(t -= y, a - b); IS(t, a - b); }
        { E t = x; IS(t *= y, a * b); IS(t, a * b); }
        { E t = x; IS(++t, a + 1); IS(t, a + 1); IS(t++, a + 1); IS(t, a + 2); IS(--t, a + 1); IS(t--, a + 1); IS(t, a); }
        { E t; t = x; IS(t, a); E u(t); IS(u, a); E w(std::move(u)); IS(w, a); }
        if (a != 0) { E i = x.inversed(); IS(i * x, 1); IS(i, inv(a, p())); IS(y * i, b * inv(a, p())); }
        CHECK((x == y) == (a == b), "==" << ctx(a, b));
        CHECK((x != y) == (a != b), "!=" << ctx(a, b));
        CHECK(x == elt(a) && !(x != elt(a)), "x == x" << ctx(a, b));
        CHECK(x.is_zero() == (a == 0), "is_zero" << ctx(a, b));
        CHECK(x.is_one() == (a == 1), "is_one" << ctx(a, b));
        CHECK(((x - y).is_zero()) == (a == b), "(x-y).is_zero" << ctx(a, b));
        CHECK((x + (-x)).is_zero(), "x + -x" << ctx(a, b));
        IS(E::zero(), 0);
        IS(E::one(), 1);
        IS(E::one() * x, a);
        IS(E::zero() + x, a);
        IS(E(), 0);
        // the order is a strict total order, whatever it is
        int n = (x < y) + (y < x) + (x == y);
        CHECK(n == 1, "exactly one of <, >, == must hold" << ctx(a, b));
        CHECK((x > y) == (y < x) && (x <= y) == !(y < x) && (x >= y) == !(x < y), "the comparisons disagree" << ctx(a, b));
        CHECK(std::hash<E>()(x) == std::hash<E>()(elt(b) - elt(b) + elt(a)), "equal elements, different hashes" << ctx(a, b));
        // ring laws with a third operand
        Z c = draw_mod(S, p());
        E z = elt(c);
        CHECK((x + y) * z == x * z + y * z && (x * y) * z == x * (y * z), "ring laws" << ctx(a, b) << " c=" << hex(c));
        { bool le = (x < y) && (y < z); CHECK(!le || x < z, "the order is not transitive" << ctx(a, b) << " c=" << hex(c)); }
    }
    static void build(vf::Src &S) {
        Z a, b = 0;
        // every integer type the constructor takes
        std::uint64_t w = S.flip() ? S.u64(~0ull) : S.u64(300);
        if (S.one_in(4)) w = ~0ull - S.u64(3);
        S.note("integer ", w);
        S.nontrivial(w > 1);
        a = u(w);
        IS(E((unsigned long long) w), a);
        IS(E((unsigned long) w), a);
        a = u(w & 0x7fffffffu); IS(E((int) a.get_si()), a);
        a = u(w & 0xffffffffu); IS(E((unsigned) (w & 0xffffffffu)), a);
        a = u(w & 0xffffu); IS(E((unsigned short) (w & 0xffffu)), a);
        a = u(w & 0x7fu); IS(E((signed char) (w & 0x7f)), a);
        a = u(w >> 1); IS(E((long) (w >> 1)), a); IS(E((long long) (w >> 1)), a);
        a = u(w & 1); IS(E(bool(w & 1)), a);
        // numbers: canonical, equal to the modulus, above it
        Z m = draw_bits(S, bits(p()));
        S.note("number ", hex(m));
        a = m; IS(E(to_num<I>(m)), m);
        IS(E(to_num<typename Fld::integral_type>(mod(m, p()))), m);
        IS(E(to_num<boost::multiprecision::uint128_t>(mod(m, Z(1) << 128))), mod(m, Z(1) << 128));
        if constexpr (Fld::modulus_bits <= 2048) {
            Z big = draw_bits(S, 2 * bits(p()) - 2);
            a = big;
            S.note("wide ", hex(big));
            IS(E(to_num<typename Fld::extended_integral_type>(big)), big);
        }
        { E e = elt(mod(m, p())); typename E::data_type d = e.data; IS(E(d), m); }
    }
    // an element and an integer
    static void mixed(vf::Src &S) {
        Z a = draw_mod(S, p());
        const E x = elt(a);
        std::uint64_t w = S.one_in(3) ? S.u64(~0ull) : S.u64(50);
        Z m = draw_bits(S, bits(p())), b = u(w);
        S.note("a=", hex(a), " integers ", w, " ", hex(m));
        S.nontrivial(a > 1 && w > 1 && m > 1);
#define ALL(K, Q) do { auto k = (K); Z q = (Q); b = q; IS(x + k, a + q); IS(x - k, a - q); IS(x * k, a * q); IS(k + x, q + a); IS(k - x, q - a); IS(k * x, q * a); } while (0)
        ALL((std::size_t) w, u(w));
        ALL((int) (w & 0x7fffffff), u(w & 0x7fffffff));
        ALL(to_num<I>(m), m);
#undef ALL
    }
    static void power(vf::Src &S) {
        Z a = draw_mod(S, p()), b = 0;
        const E x = elt(a);
        std::size_t nb = bits(p());
        std::uint64_t k = S.one_in(3) ? S.u64(~0ull) : S.u64(70);
        b = u(k);
        S.note("a=", hex(a), " exponent ", hex(b));
        S.nontrivial(a > 1 && k > 1);
        Z ref = powm(a, b, p());
        IS(x.pow((unsigned long long) k), ref);
        IS(x.pow(k), ref);
        IS(x.pow(to_num<I>(mod(u(k), Z(1) << (nb - 1)))), powm(a, mod(u(k), Z(1) << (nb - 1)), p()));
        { unsigned s = (unsigned) (k & 0xffff); IS(x.pow(s), powm(a, s, p())); IS(x.pow((int) s), powm(a, s, p())); IS(x.pow((unsigned char) (k & 0x7f)), powm(a, k & 0x7f, p())); }
        if (nb <= 640) {
            Z e = S.one_in(4) ? Z(p() - 1 - u(S.u64(2))) : draw_bits(S, nb);
            b = e;
            S.note("exponent ", hex(e));
            Z r2 = powm(a, e, p());
            IS(x.pow(to_num<I>(e)), r2);
            IS(fields::detail::power(x, to_num<I>(e)), r2);
            IS(x.pow(boost::multiprecision::cpp_int(to_num<boost::multiprecision::cpp_int>(e))), r2);
            if (a != 0) { IS(x.pow(to_num<I>(mod(p() - 1, Z(1) << Fld::modulus_bits))), 1); }
        }
        { Z e = u(k & 0x3ff); b = e; IS(fields::detail::power(x, to_num<I>(mod(e, Z(1) << (nb - 1)))), powm(a, mod(e, Z(1) << (nb - 1)), p()));
          IS(fields::detail::power(x, to_num<boost::multiprecision::cpp_int>(e)), powm(a, e, p())); }
    }
    // a history of operations on four registers, with aliasing
    static void history(vf::Src &S) {
        E r[4]; Z m[4]; Z a, b;
        for (int i = 0; i < 4; ++i) { m[i] = draw_mod(S, p()); r[i] = elt(m[i]); }
        unsigned n = 1 + S.u64(14);
        S.nontrivial(n > 3);
        for (unsigned k = 0; k < n; ++k) {
            int i = S.index(4), j = S.index(4), l = S.index(4);
            unsigned op = S.u64(15);
            a = m[i]; b = m[j];
            S.note("r", i, " r", j, " r", l, " op ", op);
            switch (op) {
                case 0: r[l] = r[i] + r[j]; m[l] = m[i] + m[j]; break;
                case 1: r[l] = r[i] - r[j]; m[l] = m[i] - m[j]; break;
                case 2: r[l] = r[i] * r[j]; m[l] = m[i] * m[j]; break;
                case 3: r[i] += r[j]; m[i] += Z(m[j]); break;
                case 4: r[i] -= r[j]; m[i] -= Z(m[j]); break;
                case 5: r[i] *= r[j]; m[i] *= Z(m[j]); break;
                case 6: r[l] = -r[i]; m[l] = -m[i]; break;
                case 7: r[l] = r[i].doubled(); m[l] = 2 * m[i]; break;
                case 8: r[l] = r[i].squared(); m[l] = Z(m[i] * m[i]); break;
                case 9: if (m[i] != 0) { r[l] = r[i].inversed(); m[l] = inv(Z(m[i]), p()); } break;
                case 10: ++r[i]; m[i] += 1; break;
                case 11: --r[i]; m[i] -= 1; break;
                case 12: { std::uint64_t e = S.u64(20); r[l] = r[i].pow(e); m[l] = powm(Z(m[i]), u(e), p()); } break;
                case 13: r[l] = r[i]++; { Z t = m[i]; m[i] += 1; m[l] = t; if (i == l) m[l] = t; } break;
                case 14: r[l] = S.flip() ? E::zero() : E::one(); m[l] = val(r[l]) == 0 ? 0 : 1; break;
                default: r[l] = E(r[i]); m[l] = Z(m[i]); break;
            }
            for (int q = 0; q < 4; ++q) {
                m[q] = mod(m[q], p());
                Z v = val(r[q]);
                CHECK(v == m[q], "after operation " << op << " on registers " << i << "," << j << " into " << l << ", register " << q << " holds " << hex(v) << " instead of " << hex(m[q]) << ctx(a, b));
            }
        }
    }
    static void reg(const char *n) {
        double scale = bits(p()) > 1000 ? 0.1 : 1;
        static std::string s[5] = {std::string(n) + "_arithmetic", std::string(n) + "_construction", std::string(n) + "_powers", std::string(n) + "_history", std::string(n) + "_integers"};
        static vf::Reg r4(s[4].c_str(), mixed, 60 * scale + 4, 4000 * scale, "element and integers above one");
        static vf::Reg r0(s[0].c_str(), arith, 300 * scale, 20000 * scale, "both operands above one");
        static vf::Reg r1(s[1].c_str(), build, 60 * scale + 4, 4000 * scale, "the machine integer is above one");
        static vf::Reg r2(s[2].c_str(), power, 100 * scale, 5000 * scale, "base and exponent above one");
        static vf::Reg r3(s[3].c_str(), history, 150 * scale, 10000 * scale, "more than three operations");
    }
};
#define R_(N, ...) C06<__VA_ARGS__>::reg(#N);
static int registered = [] { FIELD_LIST(R_) return 0; }();
