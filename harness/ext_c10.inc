// C10 on quadratic and cubic extensions.
using namespace tw;
template<class X> struct C10 {
    typedef typename X::F::value_type E;
    static const Tower &T() { return X::T(); }
    static void root(vf::Src &S) {
        V a = T().draw(S);
        unsigned kind = S.u64(2);
        if (kind == 1) a = T().mul(a, a);
        if (kind == 2) {    // an element of the prime field, square or not
            Z c = zn::draw_mod(S, T().p);
            a = T().zero();
            a[0] = c;
        }
        S.note("a=", tw::str(a));
        S.nontrivial(a != T().one() && !is0(a));
        // a is a square exactly when its norm to the prime field is
        V n = a, f = a;
        for (std::size_t i = 1; i < T().size(); ++i) { f = T().frob(f); n = T().mul(n, f); }
        for (std::size_t i = 1; i < n.size(); ++i) if (n[i] != 0) vf::fail(__FILE__, __LINE__, "the norm is not in the prime field");
        bool sq = mpz_legendre(n[0].get_mpz_t(), T().p.get_mpz_t()) >= 0;
        const E x = tw::elt<E>(a);
        CHECK(x.is_square() == sq, "is_square of " << tw::str(a) << ", whose norm is " << (sq ? "a square" : "not a square") << ", in " << X::name);
        if (sq) {
            V r = flat(x.sqrt());
            CHECK(T().mul(r, r) == a, "sqrt of " << tw::str(a) << " is " << tw::str(r) << " in " << X::name);
            if (is0(a)) CHECK(is0(r), "sqrt(0)");
        }
        CHECK(flat(x) == a, "operand changed");
    }
    static void reg() {
        static std::string s = std::string(X::name) + "_root";
        static vf::Reg r(s.c_str(), root, 150, 4000, "the element is not zero or one", 20);
    }
};
#define R_(N) C10<N>::reg();
static int registered = [] { EXT_LIST(R_) return 0; }();
