// C11: specialised products against the general product.
using namespace tw;
template<class A, class B, class = void> struct can_mul : std::false_type { };
template<class A, class B> struct can_mul<A, B, std::void_t<decltype(std::declval<A>() * std::declval<B>())>> : std::true_type { };
#define HAS(NAME, CALL) template<class E, class = void> struct NAME : std::false_type { }; template<class E> struct NAME<E, std::void_t<CALL>> : std::true_type { };
#define DV(T) std::declval<T>()
HAS(has_023, decltype(DV(E).mul_by_023(DV(E))))
HAS(has_2345, decltype(DV(E).mul_by_2345(DV(E))))
HAS(has_nr, decltype(DV(E).mul_by_non_residue(DV(typename E::underlying_type))))
HAS(has_045, decltype(DV(E).mul_by_045(DV(typename E::underlying_type::underlying_type), DV(typename E::underlying_type::underlying_type), DV(typename E::underlying_type::underlying_type))))
HAS(has_xi, decltype(DV(E).mul_xi()))
template<class X> struct C11 {
    typedef typename X::F::value_type E;
    static const Tower &T() { return X::T(); }
    static std::string ctx(const V &a, const V &b) { return " a=" + tw::str(a) + " b=" + tw::str(b) + " in " + X::name; }
#define IS(EXPR, REF) do { V vf_r = flat(EXPR); V vf_e = T().red(REF); CHECK(vf_r == vf_e, #EXPR " gives " << tw::str(vf_r) << " instead of " << tw::str(vf_e) << ctx(a, b)); } while (0)
    static V some(vf::Src &S, std::size_t n) {
        V v(n, Z(0));
        if (S.one_in(10)) return v;
        if (S.one_in(5)) { v[S.index(n)] = zn::draw_mod(S, T().p); return v; }
        for (auto &c : v) c = zn::draw_mod(S, T().p);
        return v;
    }
    template<class Sub> static void by_subfield(vf::Src &S, const V &a, const E &x) {
        if constexpr (can_mul<Sub, E>::value && !std::is_same<Sub, E>::value) {
            V b = some(S, Flat<Sub>::n);
            const Sub f = tw::elt<Sub>(b);
            S.note("by ", tw::str(b));
            V r = T().mul(a, T().lift(b));
            IS(f * x, r);
            IS(x * f, r);
        }
        if constexpr (Flat<Sub>::n > 1) by_subfield<typename Sub::underlying_type>(S, a, x);
    }
    static void subfield(vf::Src &S) {
        V a = T().draw(S);
        S.note("a=", tw::str(a));
        S.nontrivial(a != T().one() && !is0(a));
        by_subfield<typename E::underlying_type>(S, a, tw::elt<E>(a));
    }
    static void special(vf::Src &S) {
        V a = T().draw(S), b;
        const E x = tw::elt<E>(a);
        S.note("a=", tw::str(a));
        S.nontrivial(a != T().one() && !is0(a));
        typedef typename E::underlying_type U;
        if constexpr (has_nr<E>::value) {
            // the tower non-residue times an element of the level below
            Tower B{T().p, std::vector<Level>(T().lv.begin(), T().lv.end() - 1)};
            V c = B.draw(S);
            b = c;
            S.note("c=", tw::str(c));
            V r = B.mul(c, T().lv.back().nr);
            V got = flat(x.mul_by_non_residue(tw::elt<U>(c)));
            CHECK(got == r, "mul_by_non_residue gives " << tw::str(got) << " instead of " << tw::str(r) << ctx(c, r));
        }
        if constexpr (has_023<E>::value) {
            b = some(S, 4);
            b[1] = 0;
            S.note("b=", tw::str(b));
            IS(x.mul_by_023(tw::elt<E>(b)), T().mul(a, b));
        }
        if constexpr (has_2345<E>::value) {
            b = some(S, 6);
            b[0] = b[1] = 0;
            S.note("b=", tw::str(b));
            IS(x.mul_by_2345(tw::elt<E>(b)), T().mul(a, b));
        }
        if constexpr (has_045<E>::value) {
            typedef typename U::underlying_type W;
            V p = some(S, 2), q = some(S, 2), r = some(S, 2);
            S.note("ell_0=", tw::str(p), " ell_VW=", tw::str(q), " ell_VV=", tw::str(r));
            b = T().zero();
            for (int i = 0; i < 2; ++i) { b[i] = q[i]; b[8 + i] = p[i]; b[10 + i] = r[i]; }
            IS(x.mul_by_045(tw::elt<W>(p), tw::elt<W>(q), tw::elt<W>(r)), T().mul(a, b));
            b = T().zero();
            for (int i = 0; i < 2; ++i) { b[i] = p[i]; b[8 + i] = q[i]; b[4 + i] = r[i]; }
            IS(x.mul_by_024(tw::elt<W>(p), tw::elt<W>(q), tw::elt<W>(r)), T().mul(a, b));
        }
        if constexpr (has_xi<E>::value) {
            Z c = zn::draw_mod(S, T().p);
            U f = tw::elt<U>(V(1, c));
            S.note("c=", zn::hex(c));
            E y = x;
            b = V {c, 0};
            IS(y.mul_Fp_0(f), T().mul(a, b));
            if (X::minus_one) {    // these are documented for u^2 = -1 and xi = 9 + u
                b = V {0, c};
                IS(y.mul_Fp_1(f), T().mul(a, b));
                b = V {0, 1};
                IS(y.mul_x(), T().mul(a, b));
                b = V {9, 1};
                IS(y.mul_xi(), T().mul(a, b));
            }
            IS(y, a);
        }
    }
    // prime-field elements combined with plain integers (element/operations.hpp)
    static void integers(vf::Src &S) {
        typedef typename X::Base::value_type P;
        typedef typename X::Base::integral_type I;
        Z p = T().p, c = zn::draw_mod(S, p);
        std::uint64_t w = S.one_in(3) ? S.u64(~0ull) : S.u64(50);
        S.note("c=", zn::hex(c), " integer ", w);
        S.nontrivial(c > 1 && w > 1);
        V a(1, c), b(1, zn::u(w));
        const P f(zn::to_num<I>(c));
#define ISP(EXPR, REF) do { Z vf_r = flat(EXPR)[0], vf_e = zn::mod(Z(REF), p); CHECK(vf_r == vf_e, #EXPR " gives " << zn::hex(vf_r) << " instead of " << zn::hex(vf_e) << ctx(a, b)); } while (0)
#define ALL(K, Q) do { auto k = (K); Z q = (Q); ISP(f + k, c + q); ISP(f - k, c - q); ISP(f * k, c * q); ISP(k + f, q + c); ISP(k - f, q - c); ISP(k * f, q * c); } while (0)
        ALL((unsigned long long) w, zn::u(w));
        ALL((unsigned long) w, zn::u(w));
        ALL((int) (w & 0x7fffffff), zn::u(w & 0x7fffffff));
        ALL((unsigned) w, zn::u(w & 0xffffffffull));
        ALL((unsigned short) w, zn::u(w & 0xffff));
        ALL((long) (w >> 1), zn::u(w >> 1));
        Z m = zn::draw_bits(S, X::Base::modulus_bits);
        S.note("number ", zn::hex(m));
        b[0] = m;
        ALL(zn::to_num<I>(m), m);
    }
    static void reg() {
        static std::string s[3] = {std::string(X::name) + "_subfield_products", std::string(X::name) + "_special_products", std::string(X::name) + "_integer_operands"};
        static vf::Reg r0(s[0].c_str(), subfield, 400, 20000, "the element is not zero or one");
        static vf::Reg r1(s[1].c_str(), special, 400, 20000, "the element is not zero or one");
        if (X::depth == 1) static vf::Reg r2(s[2].c_str(), integers, 300, 20000, "element and integer above one");
    }
};
#define R_(N) C11<N>::reg();
static int registered = [] { EXT_LIST(R_) return 0; }();
