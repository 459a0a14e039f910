// C14: the published constants of the library's curves.
template<class P, class = void> struct has_a_ : std::false_type { };
template<class P> struct has_a_<P, decltype((void) P::a)> : std::true_type { };
template<class P, class = void> struct has_b_ : std::false_type { };
template<class P> struct has_b_<P, decltype((void) P::b)> : std::true_type { };
template<class P, class = void> struct has_d_ : std::false_type { };
template<class P> struct has_d_<P, decltype((void) P::d)> : std::true_type { };
template<class P, class = void> struct has_AB_ : std::false_type { };
template<class P> struct has_AB_<P, decltype((void) P::A, (void) P::B)> : std::true_type { };
template<class P, class = void> struct has_fill_ : std::false_type { };
template<class P> struct has_fill_<P, decltype((void) P::one_fill)> : std::true_type { };
template<class P, class = void> struct has_cof_ : std::false_type { };
template<class P> struct has_cof_<P, decltype((void) P::cofactor)> : std::true_type { };
template<class E, class = void> struct wf_ : std::false_type { };
template<class E> struct wf_<E, decltype((void) std::declval<const E &>().is_well_formed())> : std::true_type { };

// an integer or a field element as a tuple of the tower
template<class FE, class T> rc::V coef(const T &v, const tw::Tower &t) {
    if constexpr (std::is_same<T, FE>::value) return tw::flat(v);
    else if constexpr (std::is_integral<T>::value) { rc::V r = t.zero(); r[0] = zn::mod(rc::Z((long) v), t.p); return r; }
    else if constexpr (boost::multiprecision::is_number<T>::value) { rc::V r = t.zero(); r[0] = zn::mod(zn::from_num(v), t.p); return r; }
    else { rc::V u = tw::flat(v), r = t.zero(); std::copy(u.begin(), u.end(), r.begin()); return r; }
}
template<class G> void stated(const rc::Curve &c) {
    typedef typename G::template group<typename G::Default>::params_type P;
    typedef typename G::FE FE;
    const tw::Tower &t = c.T;
    auto same = [&](const char *n, const rc::V &got, const rc::V &want) { CHECK(got == want, "coefficient " << n << " of " << G::name << " is " << tw::str(got) << ", the standard curve has " << tw::str(want)); };
    if constexpr (!G::edw2) {
        if constexpr (std::is_same<typename G::Form, rc::cv::forms::short_weierstrass>::value) { same("a", coef<FE>(P::a, t), c.a); same("b", coef<FE>(P::b, t), c.b); }
        else if constexpr (std::is_same<typename G::Form, rc::cv::forms::montgomery>::value) { same("A", coef<FE>(P::A, t), c.a); same("B", coef<FE>(P::B, t), c.b); }
        else { same("a", coef<FE>(P::a, t), c.a); same("d", coef<FE>(P::d, t), c.b); }
        if constexpr (has_cof_<P>::value) CHECK(c.h == rc::Z((long) P::cofactor), "cofactor of " << G::name << " is " << P::cofactor);
        if constexpr (has_fill_<P>::value && !std::is_same<typename G::Form, rc::cv::forms::montgomery>::value) {
            rc::Pt g {false, tw::flat(P::one_fill[0]), tw::flat(P::one_fill[1])};
            CHECK(c.on(g), "the stated generator of " << G::name << " is off the curve: " << g);
        }
    }
}
template<class G, class Co> void generator(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    const rc::Curve &c = A::C();
    static bool once = false;
    typedef typename G::template group<Co> Grp;
    if (!once) {
        once = true;
        typedef typename G::CurveT C;
        CHECK(zn::from_num(C::base_field_type::modulus) == c.T.p, "base field of " << G::name);
        CHECK(zn::from_num(C::scalar_field_type::modulus) == c.r && zn::prime(c.r), "scalar field of " << G::name << " has order " << zn::hex(zn::from_num(C::scalar_field_type::modulus)) << ", the subgroup " << zn::hex(c.r));
        CHECK(Grp::field_type::value_type::zero().is_zero(), "");
        rc::Z q = c.T.order() + 1, n = c.h * c.r, d = n - q - 1;
        CHECK(d * d <= 4 * q, "the order " << zn::hex(n) << " of " << G::name << " is outside the Hasse interval");
        stated<G>(c);
        rc::Pt g = A::back(E::one());
        CHECK(c.on(g) && g != c.zero(), "the generator of " << G::name << " is " << g << ", not on the curve");
        if (G::has_gen) CHECK(g.x == c.gx && g.y == c.gy, "the generator of " << G::name << " is " << g << ", the standard one is (" << tw::str(c.gx) << ", " << tw::str(c.gy) << ")");
        CHECK(c.mul(c.r, g) == c.zero(), "the generator of " << G::name << " does not have the stated order");
    }
    // multiples k = i*r + j of the generator, in the library
    rc::Pt g = A::back(E::one());
    rc::Z i = zn::u(S.u64(3)), j = S.one_in(3) ? zn::u(S.u64(3)) : zn::draw_mod(S, c.r), k = i * c.r + j;
    S.note(G::name, " ", i, "*r + ", zn::hex(j));
    S.nontrivial(i > 0);
    E s = E::zero(), one = E::one();
    for (std::size_t b = zn::bits(k); b-- > 0;) { s.double_inplace(); if (mpz_tstbit(k.get_mpz_t(), b)) s = s + one; }
    rc::Pt want = c.mul(j, g), got = A::back(s);
    CHECK(got == want, "(" << i << "r + " << zn::hex(j) << ") times the generator of " << G::name << " is " << got << ", not " << want);
    CHECK(s.is_zero() == (j % c.r == 0), "a multiple of the generator vanishes before the stated order");
}
template<class G, class Co> void cofactor(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    const rc::Curve &c = A::C();
    // any point of the curve with the standard equation
    rc::V x = c.T.zero();
    for (auto &k : x) k = zn::draw_mod(S, c.T.p);
    rc::Pt p = c.visible(c.from(x, S.flip()));
    DISCARD_UNLESS(p != c.zero());
    E e = A::rep(S, p, S.flip());
    S.note(G::name, " ", p);
    S.nontrivial(c.h > 1);
    if constexpr (wf_<E>::value) CHECK(e.is_well_formed(), p << " is not accepted as a point of " << G::name);
    auto times = [](rc::Z k, const E &b) { E s = E::zero(); for (std::size_t i = zn::bits(k); i-- > 0;) { s.double_inplace(); if (mpz_tstbit(k.get_mpz_t(), i)) s = s + b; } return s; };
    E hp = times(c.h, e), rp = times(c.r, e);
    CHECK(A::back(hp) == c.mul(c.h, p), "the cofactor times " << p << " on " << G::name);
    CHECK(times(c.r, hp).is_zero() && times(c.h, rp).is_zero(), "cofactor times order does not annihilate " << p << " on " << G::name);
    CHECK(rp.is_zero() == (c.mul(c.r, p) == c.zero()), "the order times " << p << " on " << G::name);
    // off the curve
    rc::Pt o = p;
    std::size_t at = S.index(o.y.size());
    o.y[at] = zn::mod(o.y[at] + 1 + zn::draw_mod(S, c.T.p - 1), c.T.p);
    if (!c.on(o) && !tw::is0(o.y)) {
        E f = A::rep(S, o, S.flip());
        if constexpr (wf_<E>::value) CHECK(!f.is_well_formed(), o << " is accepted as a point of " << G::name);
    }
}
#define REG14(G, Co) \
    static vf::Reg r1_##G##_##Co(#G "_" #Co "_generator", generator<G, rc::co::Co>, 24, 3000, "a multiple beyond the order", 120); \
    static vf::Reg r2_##G##_##Co(#G "_" #Co "_cofactor", cofactor<G, rc::co::Co>, 16, 2000, "the curve has a cofactor", 120);
GROUP_LIST(REG14)
