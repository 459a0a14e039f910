// C16: scalar multiples on the library's curves.
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/curves/detail/subgroup_check.hpp>
template<class G, class Co> void multiple(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    typedef typename G::CurveT::scalar_field_type Fr;
    typedef typename Fr::value_type FV;
    typedef typename Fr::integral_type I;
    const rc::Curve &c = A::C();
    rc::Pt p = c.draw(S);
    E e = A::rep(S, p, S.flip()), keep = e;
    int form = (int) S.u64(7);
    std::size_t width = form == 0 || form == 7 ? 900 : form == 5 || form == 6 ? 64 : zn::bits(c.r);
    rc::Z k = zn::draw_scalar(S, c.r, width);
    if (form == 1 || form == 2 || form == 3) k = zn::mod(k, c.r);    // given as a scalar-field element
    if (zn::bits(k) > width) k = zn::mod(k, width == 64 ? rc::Z(rc::Z(1) << 64) : c.r);
    S.note(G::name, " ", p, " k=", zn::hex(k), " form ", form);
    S.nontrivial(p != c.zero() && (k >= c.r || k == 0 || k == c.r - 1 || mpz_popcount(k.get_mpz_t()) == 1 || form == 3 || form == 2));
    rc::Pt want = c.mul(k, p);
    const char *how = "";
    E got;
    std::uint64_t small = 0;
    if (form == 5 || form == 6) small = (std::uint64_t) zn::to_num<boost::multiprecision::cpp_int>(k);
    switch (form) {
        case 0: { auto n = zn::to_num<boost::multiprecision::cpp_int>(k); how = "point * wide integer"; got = e * n; break; }
        case 1: { FV f(zn::to_num<I>(k)); how = "point * field element"; got = e * f; break; }
        case 2: { FV f(zn::to_num<I>(k)); how = "field element * point"; if constexpr (!G::edw2) got = f * e; else got = e * f; break; }
        case 3: { FV f(zn::to_num<I>(k)); how = "point *= field element"; got = e; got *= f; break; }
        case 4: { I n = zn::to_num<I>(k); how = "integer * point"; if constexpr (!G::edw2) got = n * e; else got = e * n; break; }
        case 5: how = "point * size_t"; if constexpr (!G::edw2) got = e * std::size_t(small); else got = e * boost::multiprecision::cpp_int(small); break;
        case 6: how = "size_t * point"; if constexpr (!G::edw2) got = std::size_t(small) * e; else got = e * boost::multiprecision::cpp_int(small); break;
        default: { auto n = zn::to_num<boost::multiprecision::cpp_int>(k); how = "scalar_mul"; got = rc::cv::detail::scalar_mul(e, n); break; }
    }
    rc::Pt b = A::back(got);
    CHECK(b == want, how << ": " << zn::hex(k) << " times " << p << " is " << b << ", not " << want << " on " << G::name);
    CHECK(e == keep && A::back(e) == p, how << " changed its argument");
    CHECK(got.is_zero() == (want == c.zero()), how << ": is_zero of " << zn::hex(k) << " times " << p);
}
// additive in the scalar and in the point, with no reference arithmetic
template<class G, class Co> void linear(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    typedef typename G::CurveT::scalar_field_type Fr;
    typedef typename Fr::value_type FV;
    typedef typename Fr::integral_type I;
    const rc::Curve &c = A::C();
    rc::Pt p = c.draw_sub(S), q = S.one_in(4) ? p : c.draw_sub(S);
    E e = A::rep(S, p, S.flip()), f = A::rep(S, q, S.flip());
    rc::Z k = zn::draw_mod(S, c.r), l = zn::draw_mod(S, c.r);
    if (S.one_in(3)) l = zn::mod(-k, c.r);
    FV fk(zn::to_num<I>(k)), fl(zn::to_num<I>(l));
    S.note(G::name, " ", p, " ", q, " ", zn::hex(k), " ", zn::hex(l));
    S.nontrivial(p != c.zero() && k != 0 && l != 0);
    CHECK(e * (fk + fl) == e * fk + e * fl, "(k + l)P is not kP + lP on " << G::name);
    CHECK((e + f) * fk == e * fk + f * fk, "k(P + Q) is not kP + kQ on " << G::name);
    CHECK((e * fk) * fl == e * (fk * fl), "(kP)l is not (kl)P on " << G::name);
    CHECK(e * (-fk) == -(e * fk), "(-k)P is not -(kP) on " << G::name);
}
// the subgroup test
template<class G, class Co> void subgroup(vf::Src &S) {
    if constexpr (!G::edw2) {
        typedef rc::Ad<G, Co> A;
        const rc::Curve &c = A::C();
        rc::Pt p = S.flip() ? c.draw(S) : c.draw_sub(S);
        auto e = A::rep(S, p, S.flip());
        bool want = c.mul(c.r, p) == c.zero();
        S.note(G::name, " ", p, " ", want);
        S.nontrivial(!want);
        CHECK(rc::cv::detail::subgroup_check(e) == want, "subgroup_check of " << p << " is not " << want << " on " << G::name);
    }
}
// a point given as a number is that multiple of the generator
template<class E, class N, class = void> struct takes : std::false_type { };
template<class E, class N> struct takes<E, N, std::void_t<decltype(std::declval<E &>() = std::declval<const N &>())>> : std::is_constructible<E, N> { };
template<class G, class Co> void generated(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    typedef boost::multiprecision::cpp_int N;
    if constexpr (takes<E, N>::value) {
        const rc::Curve &c = A::C();
        rc::Z k = zn::draw_scalar(S, c.r, 900);
        S.note(G::name, " ", zn::hex(k));
        S.nontrivial(k > 1);
        rc::Pt g = A::back(E::one()), want = c.mul(k, g);
        N n = zn::to_num<N>(k);
        E e(n);
        rc::Pt b = A::back(e);
        CHECK(b == want, "the point made from " << zn::hex(k) << " is " << b << ", not " << want << " on " << G::name);
        E f = A::rep(S, c.draw(S), S.flip());
        f = n;
        b = A::back(f);
        CHECK(b == want, "the point assigned from " << zn::hex(k) << " is " << b << ", not " << want << " on " << G::name);
    }
}
#define REG16(G, Co) \
    static vf::Reg r4_##G##_##Co(#G "_" #Co "_generated", generated<G, rc::co::Co>, 8, 800, "number above one", 120); \
    static vf::Reg r1_##G##_##Co(#G "_" #Co "_multiple", multiple<G, rc::co::Co>, 60, 8000, "finite point; scalar 0, a power of two, order minus one, beyond the order, or a field element on the left or in place", 120); \
    static vf::Reg r2_##G##_##Co(#G "_" #Co "_linear", linear<G, rc::co::Co>, 12, 2000, "finite point, non-zero scalars", 120); \
    static vf::Reg r3_##G##_##Co(#G "_" #Co "_subgroup", subgroup<G, rc::co::Co>, 12, 2000, "the point is outside the subgroup", 120);
GROUP_LIST(REG16)
