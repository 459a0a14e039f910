// C09: Frobenius maps, unitary inverses and cyclotomic shortcuts against generic powers.
using namespace tw;
template<class E, class = void> struct has_cyc : std::false_type { };
template<class E> struct has_cyc<E, std::void_t<decltype(std::declval<E>().cyclotomic_squared())>> : std::true_type { };
template<class X> struct C09 {
    typedef typename X::F::value_type E;
    static const Tower &T() { return X::T(); }
    static std::string ctx(const V &a, const Z &b) { return " for a=" + tw::str(a) + " k=" + zn::hex(b) + " in " + X::name; }
#define IS(EXPR, REF) do { V vf_r = flat(EXPR); V vf_e = T().red(REF); CHECK(vf_r == vf_e, #EXPR " gives " << tw::str(vf_r) << " instead of " << tw::str(vf_e) << ctx(a, b)); } while (0)
    static void frob(vf::Src &S) {
        V a = T().draw(S);
        unsigned n = T().size();
        Z b = S.one_in(3) ? zn::u(S.u64(1000)) : zn::u(S.u64(3 * n));
        if (S.one_in(8)) b = zn::u(S.u64(0xffffffffull));
        S.note("a=", tw::str(a), " k=", b.get_str());
        std::uint64_t k = mpz_get_ui(b.get_mpz_t());
        S.nontrivial(k % n != 0 && a != T().one() && !is0(a));
        const E x = tw::elt<E>(a);
        V r = T().frobk(a, k % n);
        IS((x.Frobenius_map(k)), r);
        IS((x.Frobenius_map((unsigned) k)), r);
        if (k < 0x7fffffff) { IS((x.Frobenius_map((int) k)), r); }
        if (S.one_in(vf::thorough() ? 20 : 60)) { IS((x.Frobenius_map(1u)), T().pow(a, T().p)); }
        // homomorphism and composition
        V c = T().draw(S);
        const E y = tw::elt<E>(c);
        unsigned j = S.u64(n);
        CHECK((x * y).Frobenius_map(j) == x.Frobenius_map(j) * y.Frobenius_map(j), "not multiplicative" << ctx(a, j));
        CHECK((x + y).Frobenius_map(j) == x.Frobenius_map(j) + y.Frobenius_map(j), "not additive" << ctx(a, j));
        CHECK(x.Frobenius_map(j).Frobenius_map(k % n) == x.Frobenius_map(j + k % n), "does not compose" << ctx(a, j));
    }
    static V inv(const V &a) {    // conjugates over the norm
        V q = T().one();
        V f = a;
        for (std::size_t i = 1; i < T().size(); ++i) { f = T().frob(f); q = T().mul(q, f); }
        V n = T().mul(q, a);
        return T().scale(q, zn::inv(n[0], T().p));
    }
    // an element of the cyclotomic subgroup, of order dividing Phi_n(p)
    static V cyclo(vf::Src &S, V a) {
        unsigned n = T().size();
        V f = T().mul(T().frobk(a, n / 2), inv(a));
        if (n == 6) f = T().mul(T().frobk(f, 1), f);
        if (n == 12) f = T().mul(T().frobk(f, 2), f);
        return f;
    }
    static void cyc(vf::Src &S) {
        if constexpr (has_cyc<E>::value) {
            V a = T().draw(S);
            DISCARD_UNLESS(!is0(a));
            a = cyclo(S, a);
            Z b = S.one_in(3) ? zn::u(S.u64(20)) : S.one_in(4) ? zn::draw_scalar(S, T().p, X::Base::modulus_bits) : zn::draw_bits(S, 70);
            S.note("a=", tw::str(a), " e=", zn::hex(b));
            S.nontrivial(a != T().one() && b > 2);
            const E x = tw::elt<E>(a);
            V i = flat(x.unitary_inversed());
            CHECK(T().mul(i, a) == T().one(), "unitary_inversed() gives " << tw::str(i) << ctx(a, b));
            IS(x.cyclotomic_squared(), T().mul(a, a));
            V r = T().pow(a, b);
            if (b < (Z(1) << (X::Base::modulus_bits - 1))) { IS(x.cyclotomic_exp(zn::to_num<typename X::Base::integral_type>(b)), r); }
            IS(x.cyclotomic_exp(zn::to_num<typename X::Base::extended_integral_type>(b)), r);
            IS(x.cyclotomic_exp(zn::to_num<boost::multiprecision::cpp_int>(b)), r);
            IS(x.pow(zn::to_num<typename X::Base::extended_integral_type>(b)), r);
            // exponents beyond the order of the subgroup
            if (S.one_in(vf::thorough() ? 3 : 12)) {
                Z o = T().p * T().p + 1; if (T().size() == 6) o -= T().p;
                if (T().size() == 12) o = T().p * T().p * T().p * T().p - T().p * T().p + 1;
                Z w = o + zn::u(S.u64(5)) - 2;
                b = w;
                long d = Z(w - o).get_si();
                IS(x.cyclotomic_exp(zn::to_num<typename X::Base::extended_integral_type>(w)), d >= 0 ? T().pow(a, Z(d)) : T().pow(i, Z(-d)));
            }
        }
    }
    static void reg() {
        static std::string s[2] = {std::string(X::name) + "_Frobenius", std::string(X::name) + "_cyclotomic"};
        static vf::Reg r0(s[0].c_str(), frob, 300, 10000, "the power is not a multiple of the degree and the element is not zero or one", 60);
        if (has_cyc<E>::value) static vf::Reg r1(s[1].c_str(), cyc, 120, 4000, "the element is not one and the exponent exceeds two", 60);
    }
};
#define R_(N) C09<N>::reg();
static int registered = [] { EXT_LIST(R_) return 0; }();
