// C07 on extension fields: constants of the extension parameters against their defining equations in the reference tower.
using namespace tw;
#define MEMBER(m) \
    template<class T, class = void> struct has_##m : std::false_type { }; \
    template<class T> struct has_##m<T, std::void_t<decltype(T::m)>> : std::true_type { };
MEMBER(s) MEMBER(t) MEMBER(t_minus_1_over_2) MEMBER(nqr) MEMBER(nqr_to_t) MEMBER(group_order) MEMBER(group_order_minus_one_half)
MEMBER(non_residue) MEMBER(Frobenius_coeffs_c1) MEMBER(Frobenius_coeffs_c2) MEMBER(modulus)
template<class F, class = void> struct has_arith : std::false_type { };
template<class F> struct has_arith<F, std::void_t<decltype(sizeof(arithmetic_params<F>))>> : std::true_type { };
template<class E, class = void> struct Fl { static V get(const E &e) { return V{zn::from_num(e)}; } };    // an integer
template<class E> struct Fl<E, std::void_t<decltype(std::declval<E>().data)>> { static V get(const E &e) { return flat(e); } };
template<class A> V all(const A &a) { V v; for (auto &c : a) for (auto &z : Fl<std::decay_t<decltype(c)>>::get(c)) v.push_back(z); return v; }

template<class X> struct C07X {
    typedef typename X::F F;
    typedef typename F::extension_policy P;
    static const Tower &T() { return X::T(); }
    static const Z &order() { static Z q = T().order(); return q; }    // q - 1
    static V place(std::size_t coord, const V &c) {    // c, an element of a subfield, as coefficient of the top-level basis
        V r = T().zero();
        std::size_t n = T().size(T().lv.size() - 1);
        for (std::size_t i = 0; i < c.size(); ++i) r[coord * n + i] = c[i];
        return r;
    }
    template<class A> static void coefficients(const A &a, std::size_t coord, const char *what) {
        V v = all(a);
        std::size_t n = T().size(), per = v.size() / n;
        CHECK(per * n == v.size(), X::name << " " << what << " has " << v.size() << " numbers");
        V w = place(coord, V{Z(1)});
        for (std::size_t i = 0; i < n; ++i) {
            V c(v.begin() + i * per, v.begin() + (i + 1) * per), e = place(coord, c);
            CHECK(e == T().frobk(w, i), X::name << ": " << what << "[" << i << "] is " << str(c) << ", but the basis element maps to " << str(T().frobk(w, i)));
        }
    }
    template<class A> static void constants(const char *where) {
        const std::string W = std::string(X::name) + " " + where + ": ";
        std::size_t s = mpz_scan1(order().get_mpz_t(), 0);
        Z odd = order() >> s;
        if constexpr (has_modulus<A>::value) CHECK(zn::from_num(A::modulus) == T().p, W << "modulus");
        if constexpr (has_s<A>::value) CHECK(A::s == s, W << "s is " << A::s << ", the two-adicity is " << s);
        if constexpr (has_t<A>::value) CHECK(zn::from_num(A::t) == odd, W << "t is " << zn::hex(zn::from_num(A::t)));
        if constexpr (has_t_minus_1_over_2<A>::value) CHECK(zn::from_num(A::t_minus_1_over_2) == (odd - 1) / 2, W << "t_minus_1_over_2");
        if constexpr (has_s<A>::value && has_nqr<A>::value) {    // those of the extension itself
            V q = all(A::nqr);
            CHECK(q.size() == T().size(), W << "nqr has " << q.size() << " coefficients");
            CHECK(T().pow(q, order() / 2) == T().neg(T().one()), W << "nqr " << str(q) << " is a square");
            if constexpr (has_nqr_to_t<A>::value) CHECK(all(A::nqr_to_t) == T().pow(q, odd), W << "nqr_to_t is " << str(all(A::nqr_to_t)));
        }
        if constexpr (has_s<A>::value && !has_group_order<A>::value && has_group_order_minus_one_half<A>::value)    // (where the half-order is called group_order, this one is the base field's)
            CHECK(zn::from_num(A::group_order_minus_one_half) == order() / 2, W << "group_order_minus_one_half is " << zn::hex(zn::from_num(A::group_order_minus_one_half)));
        if constexpr (has_s<A>::value && has_group_order<A>::value) {
            Z g = zn::from_num(A::group_order);
            CHECK(g == order() / 2 || g == order(), W << "group_order is " << zn::hex(g));
        }
        if constexpr (has_non_residue<A>::value) {
            V nr = Fl<std::decay_t<decltype(A::non_residue)>>::get(A::non_residue);
            std::size_t k = T().lv.size() == 1 || T().lv[0].deg * T().lv[1].deg == 4 || T().lv[0].deg == 3 ? 0 : 1;
            CHECK(nr == T().lv[k].nr, W << "non_residue is " << str(nr) << ", the published one is " << str(T().lv[k].nr));
        }
        std::size_t d = T().lv.back().deg;
        if constexpr (has_Frobenius_coeffs_c1<A>::value) coefficients(A::Frobenius_coeffs_c1, 1, "Frobenius_coeffs_c1");
        if constexpr (has_Frobenius_coeffs_c2<A>::value) { CHECK(d == 3, W << "c2"); coefficients(A::Frobenius_coeffs_c2, 2, "Frobenius_coeffs_c2"); }
    }
    static void constants_case(vf::Src &S) {
        V a = T().draw(S);
        DISCARD_UNLESS(!is0(a));
        S.note("a=", str(a));
        S.nontrivial(a != T().one());
        CHECK(F::arity == T().size(), X::name << ": arity is " << F::arity);
        CHECK(F::modulus_bits == zn::bits(T().p) && F::number_bits == zn::bits(T().p), X::name << ": modulus_bits");
        CHECK(F::value_bits == F::arity * zn::bits(T().p), X::name << ": value_bits is " << F::value_bits);
        CHECK(zn::from_num(F::modulus) == T().p, X::name << ": modulus");
        // the published polynomial is irreducible at every level: the non-residue is no d-th power below
        Z q = T().p;
        Tower U{T().p, {}};
        for (auto &l : T().lv) {
            CHECK((q - 1) % l.deg == 0 && U.pow(l.nr, (q - 1) / l.deg) != U.one(), X::name << ": the tower polynomial of degree " << l.deg << " is reducible");
            U.lv.push_back(l);
            Z r = 1;
            for (unsigned i = 0; i < l.deg; ++i) r *= q;
            q = r;
        }
        constants<P>("extension_params");
        if constexpr (has_arith<F>::value) {
            typedef arithmetic_params<F> A;
            constants<A>("arithmetic_params");
            if constexpr (has_t<A>::value && has_s<A>::value) {    // a^(t*2^s) = 1
                V v = T().pow(a, zn::from_num(A::t));
                for (std::size_t i = 0; i < A::s; ++i) v = T().mul(v, v);
                CHECK(v == T().one(), X::name << ": a^(t*2^s) is not one for a=" << str(a));
            }
        }
    }
    static void reg() {
        static std::string s = std::string(X::name) + "_constants";
        static vf::Reg r(s.c_str(), constants_case, 3, 60, "the witness is neither zero nor one", 60);
    }
};
#define R_(X) C07X<X>::reg();
static int registered = [] { EXT_LIST(R_) return 0; }();
