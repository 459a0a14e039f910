// C13: histories of group operations on the library's curves, against affine arithmetic over the integers.
#include <array>
template<class E, class = void> struct has_mixed_ : std::false_type { };
template<class E> struct has_mixed_<E, decltype((void) std::declval<E &>().mixed_add(std::declval<const E &>()))> : std::true_type { };
template<class E, class = void> struct has_wf_ : std::false_type { };
template<class E> struct has_wf_<E, decltype((void) std::declval<const E &>().is_well_formed())> : std::true_type { };
template<class E, class = void> struct has_isub_ : std::false_type { };
template<class E> struct has_isub_<E, decltype((void) (std::declval<E &>() -= std::declval<const E &>()))> : std::true_type { };
template<class E, class = void> struct has_iadd_ : std::false_type { };
template<class E> struct has_iadd_<E, decltype((void) (std::declval<E &>() += std::declval<const E &>()))> : std::true_type { };
template<class E, class = void> struct has_sub_op_ : std::false_type { };
template<class E> struct has_sub_op_<E, decltype((void) (std::declval<const E &>() - std::declval<const E &>()))> : std::true_type { };

template<class G, class Co> void history(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    const rc::Curve &c = A::C();
    std::array<rc::Pt, 3> pt;
    std::array<E, 3> el;
    std::string log;
    auto where = [&] { return std::string(" on ") + G::name + log; };
    auto put = [&](int i, const rc::Pt &p) { pt[i] = p; el[i] = A::rep(S, p, false); };
    auto str = [](const rc::Pt &p) { std::ostringstream o; o << p; return o.str(); };
    auto check = [&](int i) {
        rc::Pt b = A::back(el[i]);
        CHECK(b == pt[i], "the result denotes " << b << ", not " << pt[i] << where());
        CHECK(el[i].is_zero() == (pt[i] == c.zero()), "is_zero() is " << el[i].is_zero() << " for " << pt[i] << where());
        if constexpr (has_wf_<E>::value) CHECK(el[i].is_well_formed(), pt[i] << " is reported to be off the curve" << where());
    };
    rc::Pt p0 = c.draw(S);
    put(0, p0);
    put(1, c.draw_related(S, p0));
    put(2, c.draw_related(S, pt[1]));
    for (int i = 0; i < 3; ++i) { log += " P" + std::to_string(i) + "=" + str(pt[i]); check(i); }
    int steps = 1 + (int) S.u64(5), special = 0;
    for (int n = 0; n < steps; ++n) {
        int i = (int) S.index(3), j = (int) S.index(3);
        rc::Pt q = pt[j];
        rc::Pt &p = pt[i];
        special += p == q || p == c.neg(q) || p == c.zero() || q == c.zero();
        E before = el[j];
        std::string h = " [P" + std::to_string(i) + " ", k = " P" + std::to_string(j) + "]";
        switch (S.u64(8)) {
            case 0: log += h + "+=" + k; p = c.add(p, q); if constexpr (has_iadd_<E>::value) el[i] += el[j]; else el[i] = el[i] + el[j]; break;
            case 1: log += h + "= P" + std::to_string(i) + " +" + k; p = c.add(p, q); el[i] = el[i] + el[j]; break;
            case 2: log += h + "= P" + std::to_string(i) + " -" + k; p = c.add(p, c.neg(q)); el[i] = el[i] - el[j]; break;
            case 3: log += h + "-=" + k; p = c.add(p, c.neg(q)); if constexpr (has_isub_<E>::value) el[i] -= el[j]; else el[i] = el[i] - el[j]; break;
            case 4: log += h + "= -" + k; p = c.neg(q); el[i] = -el[j]; break;
            case 5: log += h + "double]"; p = c.add(p, p); el[i].double_inplace(); break;
            case 6:
                if constexpr (has_mixed_<E>::value) {
                    log += h + "mixed_add" + k;
                    p = c.add(p, q);
                    E f = A::rep(S, q, true);
                    el[i].mixed_add(f);
                }
                break;
            case 7: { rc::Pt r = S.flip() ? q : c.neg(q); log += h + "=" + k + (r == q ? "" : " negated"); put(i, r); break; }
            case 8: { rc::Pt r = c.draw_related(S, p); log += h + ":= " + str(r) + "]"; put(i, r); break; }
        }
        check(i);
        if (i != j) CHECK(el[j] == before && A::back(el[j]) == q, "the other operand changed" << where());
        int m = (int) S.index(3);
        CHECK((el[i] == el[m]) == (pt[i] == pt[m]), "P" << i << " == P" << m << " is " << (el[i] == el[m]) << where());
    }
    S.note(G::name, log);
    S.nontrivial(special > 0);
    CHECK(E::zero().is_zero() && E() .is_zero() && E::zero() == E() && A::back(E::zero()) == c.zero() && A::back(E()) == c.zero(), "zero() is not the identity" << where());
}
// laws on unequal representations, with no reference arithmetic
template<class G, class Co> void laws(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    const rc::Curve &c = A::C();
    rc::Pt p = c.draw(S), q = c.draw_related(S, p), r = c.draw_related(S, q);
    E a = A::rep(S, p, false), a2 = A::rep(S, p, false), b = A::rep(S, q, false), d = A::rep(S, r, false);
    S.note(G::name, p, q, r);
    S.nontrivial(p == q || p == c.neg(q) || q == r || q == c.neg(r) || p == r);
    E ab = a + b, ba = b + a2;
    CHECK(ab == ba, p << " + " << q << " is not commutative on " << G::name);
    E l = ab + d, m = a2 + (b + d);
    CHECK(l == m, "(" << p << " + " << q << ") + " << r << " is not associative on " << G::name);
    E z = a + (-a2), z2 = a2 - a;
    CHECK(z.is_zero() && z2.is_zero(), p << " plus its negative is not the identity on " << G::name);
    CHECK(a + E::zero() == a2 && E::zero() + a2 == a, p << " plus the identity on " << G::name);
    E t = a, o = a2;
    t.double_inplace();
    CHECK(t == a + a2 && t == a + o, "doubling " << p << " differs from adding it to itself on " << G::name);
    CHECK((ab - b) == a2, "(" << p << " + " << q << ") - " << q << " on " << G::name);
    CHECK(-(-a) == a2 && -(a + b) == (-a) + (-b), "negation of " << p << ", " << q << " on " << G::name);
}
#define REG13(G, Co) \
    static vf::Reg r1_##G##_##Co(#G "_" #Co "_history", history<G, rc::co::Co>, 150, 20000, "an operation on equal, opposite or identity operands", 120); \
    static vf::Reg r2_##G##_##Co(#G "_" #Co "_laws", laws<G, rc::co::Co>, 150, 20000, "two of the three points equal or opposite", 120);
GROUP_LIST(REG13)
