// C15: conversions between coordinate systems and between forms, and equality, on the library's curves.
#define METHOD(m) \
    template<class E, class = void> struct has_##m : std::false_type { }; \
    template<class E> struct has_##m<E, decltype((void) std::declval<const E &>().m())> : std::true_type { };
METHOD(to_affine) METHOD(to_projective) METHOD(to_inverted) METHOD(to_extended_with_a_minus_1)
template<class E> struct Parts;
template<class P, class F, class C> struct Parts<rc::cv::detail::curve_element<P, F, C>> { typedef C Coord; };

template<class G, class Co> void convert(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    const rc::Curve &c = A::C();
    rc::Pt p = c.draw(S), q = c.draw_related(S, p);
    E e = A::rep(S, p, false), e2 = A::rep(S, p, false), f = A::rep(S, q, false);
    S.note(G::name, " ", p, " ", q);
    S.nontrivial(p != c.zero() && (p == q || p.x == q.x || p.y == q.y));
    E before = e;
    CHECK((e == f) == (p == q) && (f == e) == (p == q) && (e != f) == (p != q), p << " == " << q << " is " << (e == f) << " on " << G::name);
    CHECK(e == e2 && e2 == e && !(e != e2) && e == e, "two representations of " << p << " compare unequal on " << G::name);
    auto is = [&](const auto &r, const rc::Pt &w, const char *how) {
        typedef typename std::decay<decltype(r)>::type R;
        typedef rc::Ad<G, typename Parts<R>::Coord> B;
        static_assert(std::is_same<typename B::E, R>::value, "");
        rc::Pt b = B::back(r);
        CHECK(b == w && r.is_zero() == (w == c.zero()), how << " of " << w << " denotes " << b << " on " << G::name);
        return r;
    };
    if constexpr (!G::edw2) {
        if constexpr (has_to_affine<E>::value) {
            auto r = is(e.to_affine(), p, "to_affine"), r2 = is(e2.to_affine(), p, "to_affine"), s = is(f.to_affine(), q, "to_affine");
            CHECK(r == r2 && ((r.X == r2.X && r.Y == r2.Y) || (std::is_same<Co, rc::co::affine>::value && p == c.zero())), "the affine form of " << p << " is not canonical on " << G::name);
            CHECK((r == s) == (p == q), "affine forms of " << p << " and " << q << " compare wrongly on " << G::name);
            if constexpr (has_to_projective<decltype(r)>::value) {
                auto t = is(r.to_projective(), p, "affine to projective");
                auto u = is(t.to_affine(), p, "affine to projective to affine");
                CHECK(u == r && ((u.X == r.X && u.Y == r.Y) || p == c.zero()), "affine to projective to affine changes " << p << " on " << G::name);
            }
            if constexpr (has_to_inverted<decltype(r)>::value && std::is_same<Co, rc::co::inverted>::value) { auto t = is(r.to_inverted(), p, "affine to inverted"); CHECK(t == e, "affine to inverted of " << p); }
            if constexpr (has_to_extended_with_a_minus_1<decltype(r)>::value && std::is_same<Co, rc::co::extended_with_a_minus_1>::value) { auto t = is(r.to_extended_with_a_minus_1(), p, "affine to extended"); CHECK(t == e, "affine to extended of " << p); }
            // conversion commutes with addition
            rc::Pt m = c.add(p, q);
            auto x = is((e + f).to_affine(), m, "to_affine");
            auto y = r + s;
            is(y, m, "the sum of affine forms");
            CHECK(x == y, "conversion of the sum of " << p << " and " << q << " differs from the sum of the conversions on " << G::name);
        }
        if constexpr (has_to_projective<E>::value) {
            auto t = is(e.to_projective(), p, "to_projective"), t2 = is(e2.to_projective(), p, "to_projective");
            CHECK(t == t2, "projective forms of " << p << " compare unequal on " << G::name);
            if constexpr (has_to_affine<decltype(t)>::value) is(t.to_affine(), p, "to_projective to affine");
        }
    } else {
        // the element class of the second Edwards group writes both forms into its own three coordinates
        auto g = e.to_affine();
        CHECK(tw::flat(g.X) == p.x && tw::flat(g.Y) == p.y && tw::flat(g.Z) == c.T.one(), "to_affine of " << p << " on " << G::name);
        auto t = e.to_projective();
        CHECK(A::back(t) == p && t == e && (p == c.zero() || (t.is_special() && t.Z.is_one())), "to_projective of " << p << " on " << G::name);
    }
    CHECK(e == before && A::back(e) == p, "a conversion changed its argument on " << G::name);
}
#define REG15(G, Co) static vf::Reg r1_##G##_##Co(#G "_" #Co "_convert", convert<G, rc::co::Co>, 250, 30000, "finite point, the other equal or sharing a coordinate", 120);
GROUP_LIST(REG15)

#ifdef LINK
// twisted Edwards and Montgomery forms of one curve
template<class T, class M> void link(vf::Src &S) {
    typedef rc::Ad<T, rc::co::affine> A;
    typedef rc::Ad<M, rc::co::affine> B;
    const rc::Curve &t = T::C(), &m = M::C();
    const tw::Tower &K = t.T;
    rc::Pt p = t.draw(S), q = t.draw_related(S, p);
    S.note(T::name, " ", p, " ", q);
    S.nontrivial(p != t.zero() && q != t.zero());
    auto e = A::rep(S, p, false), f = A::rep(S, q, false);
    auto u = e.to_montgomery(), v = f.to_montgomery();
    static_assert(std::is_same<decltype(u), typename B::E>::value, "");
    rc::Pt mu = B::back(u);
    CHECK(m.on(mu) && u.is_well_formed() && u.is_zero() == (p == t.zero()), "the Montgomery image " << mu << " of " << p << " is off the curve " << M::name);
    if (p != t.zero()) {
        rc::V y1 = K.sub(K.one(), p.y);
        CHECK(K.mul(mu.x, y1) == K.add(K.one(), p.y), "the Montgomery image of " << p << " has x " << tw::str(mu.x) << " on " << M::name);
    }
    auto w = u.to_twisted_edwards();
    CHECK(A::back(w) == p && w == e, "there and back again takes " << p << " to " << A::back(w) << " on " << T::name);
    auto s = u + v, s2 = (e + f).to_montgomery();
    CHECK(s == s2 && B::back(s2) == m.add(mu, B::back(v)), "the image of " << p << " + " << q << " is not the sum of the images on " << M::name);
    auto n = (-e).to_montgomery();
    CHECK(n == -u, "the image of minus " << p << " on " << M::name);
    // and from the Montgomery side
    rc::Pt r = m.draw(S);
    if (r != m.zero() && !tw::is0(r.y) && !tw::is0(K.add(r.x, K.one()))) {
        auto g = B::rep(S, r, false);
        auto h = g.to_twisted_edwards();
        rc::Pt ht = A::back(h);
        CHECK(t.on(ht), "the Edwards image " << ht << " of " << r << " is off the curve " << T::name);
        CHECK(B::back(h.to_montgomery()) == r, "there and back again changes " << r << " on " << M::name);
    }
}
static vf::Reg rl("link_" LINK, link<LINK_T, LINK_M>, 300, 30000, "neither point is the identity", 120);
#endif
