// C08: extension-field elements against the reference tower.
using namespace tw;
template<class A, class B, class = void> struct can_mul : std::false_type { };
template<class A, class B> struct can_mul<A, B, std::void_t<decltype(std::declval<A>() * std::declval<B>())>> : std::true_type { };
template<class X> struct C08 {
    typedef typename X::F::value_type E;
    static const Tower &T() { return X::T(); }
    static std::string ctx(const V &a, const V &b) { return " a=" + tw::str(a) + " b=" + tw::str(b) + " in " + X::name; }
#define IS(EXPR, REF) do { V vf_r = flat(EXPR); V vf_e = T().red(REF); CHECK(vf_r == vf_e, #EXPR " gives " << tw::str(vf_r) << " instead of " << tw::str(vf_e) << ctx(a, b)); } while (0)
    static void arith(vf::Src &S) {
        V a = T().draw(S), b = S.one_in(6) ? a : S.one_in(8) ? T().neg(a) : T().draw(S);
        S.note("a=", tw::str(a), " b=", tw::str(b));
        S.nontrivial(!is0(a) && !is0(b) && a != T().one() && b != T().one());
        const E x = tw::elt<E>(a), y = tw::elt<E>(b);
        IS(x, a);
        IS(x + y, T().add(a, b));
        IS(x - y, T().sub(a, b));
        IS(-x, T().neg(a));
        V ab = T().mul(a, b);
        IS(x * y, ab);
        IS(y * x, ab);
        IS(x.doubled(), T().add(a, a));
        V aa = T().mul(a, a);
        IS(x.squared(), aa);
        IS(x * x, aa);
        { E t = x; IS(t += y, T().add(a, b)); IS(t, T().add(a, b)); }
        { E t = x; IS(t -= y, T().sub(a, b)); IS(t, T().sub(a, b)); }
        { E t = x; IS(t *= y, ab); IS(t, ab); IS(y, b); }
        { E t = x; t *= t; IS(t, aa); E u = x; u += u; IS(u, T().add(a, a)); E w = x; w -= w; IS(w, T().zero()); E c(x); c = c; IS(c, a); E d(x.data); IS(d, a); E m(std::move(d)); IS(m, a); E n; n = y; IS(n, b); }
        CHECK((x == y) == (a == b) && (x != y) == (a != b), "comparison" << ctx(a, b));
        // differ in exactly one coefficient
        { V c = a; std::size_t i = S.index(c.size()); c[i] = zn::mod(c[i] + 1 + zn::u(S.u64(3)), T().p); E z = tw::elt<E>(c);
          CHECK(!(x == z) && x != z && !(z == x), "elements differing in coefficient " << i << " compare equal" << ctx(a, c));
          CHECK(z.is_zero() == is0(c) && z.is_one() == (c == T().one()), "is_zero/is_one" << ctx(c, c)); }
        CHECK(x == tw::elt<E>(a) && !(x != tw::elt<E>(a)), "x == x" << ctx(a, b));
        CHECK(x.is_zero() == is0(a), "is_zero" << ctx(a, b));
        CHECK(x.is_one() == (a == T().one()), "is_one" << ctx(a, b));
        { V c = T().zero(); c[S.index(c.size())] = 1; E z = tw::elt<E>(c); CHECK(z.is_one() == (c == T().one()) && !z.is_zero(), "is_one of a basis element" << ctx(c, c)); }
        // scaling by an element of the prime field
        typedef typename X::Base::value_type P;
        if constexpr (can_mul<P, E>::value || X::depth == 1) {
            Z c = zn::draw_mod(S, T().p);
            P f(zn::to_num<typename X::Base::integral_type>(c));
            S.note("scale ", zn::hex(c));
            IS(f * x, T().scale(a, c));
            IS(x * f, T().scale(a, c));
        }
        if constexpr (X::depth == 1) {
            V c = T().zero();
            for (auto &q : c) q = zn::u(S.u64(1000));
            if constexpr (Flat<E>::n == 2) IS(E((int) mpz_get_si(c[0].get_mpz_t()), (unsigned) mpz_get_ui(c[1].get_mpz_t())), c);
            else IS(E((int) mpz_get_si(c[0].get_mpz_t()), (unsigned) mpz_get_ui(c[1].get_mpz_t()), (long) mpz_get_si(c[2].get_mpz_t())), c);
        }
        if constexpr (Flat<E>::n == 2) {
            CHECK(std::hash<E>()(x) == std::hash<E>()(tw::elt<E>(b) - tw::elt<E>(b) + tw::elt<E>(a)), "equal elements, different hashes" << ctx(a, b));
        }
        IS(E::zero(), T().zero());
        IS(E::one(), T().one());
        IS(E(), T().zero());
    }
    static void inverse(vf::Src &S) {
        V a = T().draw(S), b = T().draw(S);
        DISCARD_UNLESS(!is0(a));
        S.note("a=", tw::str(a));
        S.nontrivial(a != T().one());
        const E x = tw::elt<E>(a), y = tw::elt<E>(b);
        V i = flat(x.inversed());
        for (auto &c : i) CHECK(c < T().p, "a coefficient is not reduced" << ctx(a, b));
        CHECK(T().mul(i, a) == T().one(), "inversed() is " << tw::str(i) << ", which is not the inverse" << ctx(a, b));
        IS(x * x.inversed(), T().one());
        IS(x.inversed().inversed(), a);
        IS((x * y) * x.inversed(), b);
    }
    static void power(vf::Src &S) {
        V a = T().draw(S), b;
        zn::Z e = S.one_in(3) ? zn::draw_bits(S, 64) : S.one_in(vf::thorough() ? 4 : 25) ? zn::draw_scalar(S, T().order(), zn::bits(T().order())) : zn::draw_bits(S, 12);
        S.note("a=", tw::str(a), " e=", zn::hex(e));
        S.nontrivial(a != T().one() && !is0(a) && e > 2);
        const E x = tw::elt<E>(a);
        V r = T().pow(a, e);
        b = V(1, e);
        boost::multiprecision::cpp_int ce = zn::to_num<boost::multiprecision::cpp_int>(e);
        IS(x.pow(ce), r);
        if (zn::bits(e) <= 16 * X::Base::modulus_bits) IS(x.pow(zn::to_num<typename X::Base::extended_integral_type>(e)), r);
        if (zn::bits(e) < X::Base::modulus_bits) IS(x.pow(zn::to_num<typename X::Base::integral_type>(e)), r);
        if (zn::bits(e) <= 64) { unsigned long long k = mpz_get_ui(e.get_mpz_t()); IS(x.pow(k), r); }
    }
    static void history(vf::Src &S) {
        E r[3]; V m[3], a, b;
        for (int i = 0; i < 3; ++i) { m[i] = T().draw(S); r[i] = tw::elt<E>(m[i]); }
        unsigned n = 1 + S.u64(9);
        S.nontrivial(n > 3);
        for (unsigned k = 0; k < n; ++k) {
            int i = S.index(3), j = S.index(3), l = S.index(3);
            unsigned op = S.u64(9);
            a = m[i]; b = m[j];
            S.note("r", i, " r", j, " r", l, " op ", op);
            switch (op) {
                case 0: r[l] = r[i] + r[j]; m[l] = T().add(a, b); break;
                case 1: r[l] = r[i] - r[j]; m[l] = T().sub(a, b); break;
                case 2: r[l] = r[i] * r[j]; m[l] = T().mul(a, b); break;
                case 3: r[i] += r[j]; m[i] = T().add(a, b); break;
                case 4: r[i] -= r[j]; m[i] = T().sub(a, b); break;
                case 5: r[i] *= r[j]; m[i] = T().mul(a, b); break;
                case 6: r[l] = -r[i]; m[l] = T().neg(a); break;
                case 7: r[l] = r[i].doubled(); m[l] = T().add(a, a); break;
                case 8: r[l] = r[i].squared(); m[l] = T().mul(a, a); break;
                default: if (!is0(a)) { r[l] = r[i].inversed(); m[l] = S.one_in(8) ? T().inv(a) : flat(r[l]); CHECK(T().mul(m[l], a) == T().one(), "inverse" << ctx(a, b)); } break;
            }
            for (int q = 0; q < 3; ++q) CHECK(flat(r[q]) == m[q], "after operation " << op << " on registers " << i << "," << j << " into " << l << ", register " << q << " holds " << tw::str(flat(r[q])) << " instead of " << tw::str(m[q]) << ctx(a, b));
        }
    }
    static void reg() {
        static std::string s[4] = {std::string(X::name) + "_arithmetic", std::string(X::name) + "_inverse", std::string(X::name) + "_powers", std::string(X::name) + "_history"};
        static vf::Reg r0(s[0].c_str(), arith, 400, 20000, "neither operand is zero or one");
        static vf::Reg r1(s[1].c_str(), inverse, 200, 8000, "the element is not one");
        static vf::Reg r2(s[2].c_str(), power, 60, 1500, "base not zero or one, exponent above two", 60);
        static vf::Reg r3(s[3].c_str(), history, 200, 6000, "more than three operations", 60);
    }
};
#define R_(N) C08<N>::reg();
static int registered = [] { EXT_LIST(R_) return 0; }();
