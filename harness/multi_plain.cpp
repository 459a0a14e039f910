// C17, C18: windowed and multi-exponentiation in a plain additive group (the residues modulo the order of the scalar field), where
// generated lengths, windows and window tables can be large.  Compile with -DPLAIN17 or -DPLAIN18.
#include "zn.hpp"
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/alt_bn128/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/mnt4/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/wnaf.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/policies.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
namespace alg = nil::crypto3::algebra;
namespace pol = nil::crypto3::algebra::policies;
namespace fl = nil::crypto3::algebra::fields;
using zn::Z;
typedef boost::multiprecision::cpp_int Int;

// a field, and a choice of tables
template<class F, int K> struct Group {
    struct value_type {
        typedef Group group_type;
        Z v = 0;
        static Z m() { static Z r = zn::from_num(F::modulus); return r; }
        static value_type of(const Z &z) { value_type e; e.v = zn::mod(z, m()); return e; }
        static value_type zero() { return value_type(); }
        bool is_zero() const { return v == 0; }
        friend value_type operator+(const value_type &a, const value_type &b) { return of(a.v + b.v); }
        friend value_type operator-(const value_type &a, const value_type &b) { return of(a.v - b.v); }
        value_type operator-() const { return of(-v); }
        value_type &operator+=(const value_type &b) { return *this = *this + b; }
        value_type &operator-=(const value_type &b) { return *this = *this - b; }
        void double_inplace() { *this = *this + *this; }
        void mixed_add(const value_type &b) { *this = *this + b; }
        friend bool operator==(const value_type &a, const value_type &b) { return a.v == b.v; }
        friend bool operator!=(const value_type &a, const value_type &b) { return a.v != b.v; }
        template<class B, boost::multiprecision::expression_template_option ET>
        friend value_type operator*(const boost::multiprecision::number<B, ET> &k, const value_type &e) { return of(zn::from_num(k) * e.v); }
        template<class B, boost::multiprecision::expression_template_option ET>
        friend value_type operator*(const value_type &e, const boost::multiprecision::number<B, ET> &k) { return of(zn::from_num(k) * e.v); }
        friend value_type operator*(const typename F::value_type &k, const value_type &e) { return of(zn::from_num(typename F::integral_type(k.data)) * e.v); }
        friend value_type operator*(const value_type &e, const typename F::value_type &k) { return k * e; }
    };
};
typedef fl::bls12_scalar_field<381> F0;
typedef fl::alt_bn128_scalar_field<254> F1;
typedef fl::mnt4_scalar_field<298> F2;
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    template<class F> struct wnaf_params<Group<F, 0>> { constexpr static const std::array<std::size_t, 4> wnaf_window_table = {11, 24, 60, 127}; };
    template<class F> struct wnaf_params<Group<F, 1>> { constexpr static const std::array<std::size_t, 1> wnaf_window_table = {0}; };
    template<class F> struct wnaf_params<Group<F, 2>> { constexpr static const std::array<std::size_t, 6> wnaf_window_table = {2, 3, 4, 5, 6, 300}; };
    template<class F> struct multiexp_params<Group<F, 0>> { constexpr static const std::array<std::size_t, 5> fixed_base_exp_window_table = {1, 5, 10, 25, 60}; };
    template<class F> struct multiexp_params<Group<F, 1>> { constexpr static const std::array<std::size_t, 6> fixed_base_exp_window_table = {1, 4, 0, 0, 20, 0}; };
    template<class F> struct multiexp_params<Group<F, 2>> { constexpr static const std::array<std::size_t, 1> fixed_base_exp_window_table = {7}; };
}}}}

template<class F> typename F::value_type fe(const Z &k) { return typename F::value_type(zn::to_num<typename F::integral_type>(k)); }

#ifdef PLAIN17
template<class F, int K> void window(vf::Src &S) {
    typedef Group<F, K> Gr;
    typedef typename Gr::value_type E;
    Z m = E::m(), k = zn::draw_scalar(S, m, 900);
    E e = E::of(zn::draw_mod(S, m));
    std::size_t w = 1 + S.u64(11), n = S.flip() ? zn::bits(k) : S.u64(1 + S.index(400));
    S.note("window ", w, " declared ", n, " k=", zn::hex(k), " base ", zn::hex(e.v));
    S.nontrivial(zn::bits(k) > w + 1 && e.v != 0);
    E want = E::of(k * e.v);
    CHECK(alg::fixed_window_wnaf_exp(w, e, zn::to_num<Int>(k)) == want, "fixed_window_wnaf_exp of window " << w << ": " << zn::hex(k) << " times " << zn::hex(e.v));
    CHECK(alg::opt_window_wnaf_exp(e, zn::to_num<Int>(k), n) == want, "opt_window_wnaf_exp of declared length " << n << ": " << zn::hex(k) << " times " << zn::hex(e.v));
    if (k < m) {
        CHECK(alg::fixed_window_wnaf_exp(w, e, zn::to_num<typename F::integral_type>(k)) == want, "fixed_window_wnaf_exp of window " << w << " with a fixed-width scalar " << zn::hex(k));
        CHECK(alg::opt_window_wnaf_exp(e, zn::to_num<typename F::integral_type>(k), n) == want, "opt_window_wnaf_exp with a fixed-width scalar " << zn::hex(k));
    }
}
template<class F, int K> void table(vf::Src &S) {
    typedef Group<F, K> Gr;
    typedef typename Gr::value_type E;
    Z m = E::m();
    std::size_t mb = zn::bits(m), size = S.one_in(3) ? mb : 1 + S.u64(400), n = S.u64(6);
    std::size_t w = S.flip() ? alg::get_exp_window_size<Gr>(S.u64(90)) : 1 + S.u64(11);
    E e = E::of(zn::draw_mod(S, m));
    auto draw = [&]() { Z k = zn::draw_bits(S, std::min(size, mb)); if (k >= m) k = zn::mod(k, m); return k; };
    Z k = draw();
    std::vector<Z> z;
    std::vector<typename F::value_type> v;
    for (std::size_t i = 0; i < n; ++i) { z.push_back(draw()); v.push_back(fe<F>(z.back())); }
    S.note("size ", size, " window ", w, " n=", n, " k=", zn::hex(k), " base ", zn::hex(e.v));
    S.nontrivial(k > 1 && e.v != 0 && size % w != 0);
    auto t = alg::get_window_table<Gr>(size, w, e);
    CHECK((alg::windowed_exp<Gr, F>(size, w, t, fe<F>(k)) == E::of(k * e.v)), "windowed_exp of size " << size << " and window " << w << ": " << zn::hex(k) << " times " << zn::hex(e.v));
    auto all = alg::batch_exp<Gr, F>(size, w, t, v);
    CHECK(all.size() == n, "batch_exp of " << n << " scalars has " << all.size() << " results");
    for (std::size_t i = 0; i < n; ++i) CHECK(all[i] == E::of(z[i] * e.v), "batch_exp: " << zn::hex(z[i]) << " times " << zn::hex(e.v));
    if (size >= mb) {
        auto sc = alg::batch_exp_with_coeff<Gr, F>(size, w, t, fe<F>(k), v);
        CHECK(sc.size() == n, "batch_exp_with_coeff of " << n << " scalars has " << sc.size() << " results");
        for (std::size_t i = 0; i < n; ++i) CHECK(sc[i] == E::of(k * z[i] * e.v), "batch_exp_with_coeff: " << zn::hex(k) << " times " << zn::hex(z[i]) << " times " << zn::hex(e.v));
    }
}
// the chosen window is that of the largest threshold reached
template<int K> void choice(vf::Src &S) {
    typedef Group<F0, K> Gr;
    std::size_t n = S.flip() ? S.u64(70) : (std::size_t) S.u64(~0ull);
    const auto &t = alg::curves::multiexp_params<Gr>::fixed_base_exp_window_table;
    std::size_t w = alg::get_exp_window_size<Gr>(n);
    S.note(n, " -> ", w);
    S.nontrivial(n > 0);
    CHECK(w >= 1 && w <= t.size(), "get_exp_window_size(" << n << ") is " << w << ", outside the table");
}
#define REG(F, K) static vf::Reg a##F##K("plain_window_" #F "_" #K, window<F, K>, 250, 20000, "the scalar is wider than the window, base not zero", 300); \
    static vf::Reg b##F##K("plain_table_" #F "_" #K, table<F, K>, 60, 4000, "the window does not divide the declared length", 300);
REG(F0, 0) REG(F0, 1) REG(F0, 2) REG(F1, 0) REG(F1, 2) REG(F2, 1)
static vf::Reg c0("plain_choice_0", choice<0>, 200, 5000, "at least one scalar", 60);
static vf::Reg c1("plain_choice_1", choice<1>, 200, 5000, "at least one scalar", 60);
static vf::Reg c2("plain_choice_2", choice<2>, 200, 5000, "at least one scalar", 60);
#endif

#ifdef PLAIN18
template<class F, int K> void multi(vf::Src &S) {
    typedef Group<F, K> Gr;
    typedef typename Gr::value_type E;
    Z m = E::m();
    std::size_t n = S.one_in(25) ? S.u64(S.one_in(4) ? 4000 : 700) : S.one_in(3) ? S.u64(80) : S.u64(9);
    std::vector<E> v;
    std::vector<typename F::value_type> s;
    Z sum = 0, prev = 0;
    std::size_t small = S.one_in(3) ? 1 + S.index(70) : 0;    // all scalars short
    bool zero = S.one_in(30);
    for (std::size_t i = 0; i < n; ++i) {
        Z k;
        std::uint64_t kind = S.u64(7);
        k = zero || kind == 0 ? Z(0) : kind == 1 ? Z(1) : kind == 2 ? prev : kind == 3 ? Z(m - 1) : zn::draw_mod(S, m);
        if (small) { Z l = 1; l <<= small; k = zn::mod(zn::mod(k, l), m); }
        prev = k;
        Z b = zn::draw_mod(S, m);
        v.push_back(E::of(b));
        s.push_back(fe<F>(k));
        sum += b * k;
    }
    std::size_t chunks = S.flip() ? S.u64(5) : S.u64(n + 3);
    S.note("n=", n, " chunks ", chunks, " short ", small, " all zero ", zero);
    S.nontrivial(n >= 2 && !zero);
    E want = E::of(sum);
    auto kv = v;
    auto ks = s;
#define ONE(f, method) { E got = alg::f<pol::method>(v.begin(), v.end(), s.begin(), s.end(), chunks); \
    CHECK(got == want, #f "<" #method "> of " << n << " elements in " << chunks << " chunks is " << zn::hex(got.v) << ", not " << zn::hex(want.v)); \
    CHECK(v == kv && s == ks, #f "<" #method "> changed its arguments"); \
    got = alg::f<pol::method>(kv.cbegin(), kv.cend(), ks.cbegin(), ks.cend(), chunks); \
    CHECK(got == want, #f "<" #method "> over constant iterators is " << zn::hex(got.v)); }
    ONE(multiexp, multiexp_method_naive_plain)
    ONE(multiexp, multiexp_method_BDLO12)
    ONE(multiexp, multiexp_method_bos_coster)
    ONE(multiexp_with_mixed_addition, multiexp_method_naive_plain)
    ONE(multiexp_with_mixed_addition, multiexp_method_BDLO12)
    ONE(multiexp_with_mixed_addition, multiexp_method_bos_coster)
}
template<class F> void inner(vf::Src &S) {
    Z m = zn::from_num(F::modulus);
    std::size_t n = S.u64(20);
    std::vector<typename F::value_type> a, b;
    Z sum = 0;
    for (std::size_t i = 0; i < n; ++i) {
        Z x = zn::draw_mod(S, m), y = S.one_in(5) ? x : zn::draw_mod(S, m);
        a.push_back(fe<F>(x)); b.push_back(fe<F>(y)); sum += x * y;
    }
    S.note("n=", n);
    S.nontrivial(n >= 2);
    auto got = alg::inner_product(a.begin(), a.end(), b.begin(), b.end());
    CHECK(zn::from_num(typename F::integral_type(got.data)) == zn::mod(sum, m), "inner_product of " << n << " pairs is " << got.data << ", not " << zn::hex(zn::mod(sum, m)));
}
static void inner2(vf::Src &S) {    // u^2 = -1
    typedef fl::bls12_base_field<381> B;
    typedef fl::fp2<B> F;
    typedef typename F::value_type E;
    Z m = zn::from_num(B::modulus), s0 = 0, s1 = 0;
    std::size_t n = S.u64(12);
    std::vector<E> a, b;
    for (std::size_t i = 0; i < n; ++i) {
        Z x0 = zn::draw_mod(S, m), x1 = zn::draw_mod(S, m), y0 = zn::draw_mod(S, m), y1 = zn::draw_mod(S, m);
        a.push_back(E(fe<B>(x0), fe<B>(x1))); b.push_back(E(fe<B>(y0), fe<B>(y1)));
        s0 += x0 * y0 - x1 * y1; s1 += x0 * y1 + x1 * y0;
    }
    S.note("n=", n);
    S.nontrivial(n >= 2);
    E got = alg::inner_product(a.begin(), a.end(), b.begin(), b.end());
    CHECK(got == E(fe<B>(zn::mod(s0, m)), fe<B>(zn::mod(s1, m))), "inner_product of " << n << " pairs of quadratic extension elements");
}
#define REG(F, K) static vf::Reg a##F##K("plain_multi_" #F "_" #K, multi<F, K>, 150, 6000, "at least two elements, not all scalars zero", 300);
REG(F0, 0) REG(F0, 1) REG(F1, 2) REG(F2, 0) REG(F2, 2)
static vf::Reg i0("inner_bls12", inner<F0>, 200, 20000, "at least two pairs", 60);
static vf::Reg i1("inner_mnt4", inner<F2>, 200, 20000, "at least two pairs", 60);
static vf::Reg i2("inner_fp2", inner2, 100, 10000, "at least two pairs", 60);
#endif
