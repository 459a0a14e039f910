// C28: the text of the precomputations of pairings.
#include "txt.hpp"
namespace alg = nil::crypto3::algebra;
typedef PC::CurveT CT;
typedef rc::Ad<PC::G1, PC::G1::Default> A1;
typedef rc::Ad<PC::G2, PC::G2::Default> A2;
#define PARTS PART(PX) PART(PY) PART(PX_twist) PART(PY_twist) PART(QX) PART(QY) PART(QY2) PART(QX_over_twist) PART(QY_over_twist) PART(coeffs) PART(dbl_coeffs) PART(add_coeffs)
#define PART(M) template<class X, class = void> struct has_##M : std::false_type { }; template<class X> struct has_##M<X, std::void_t<decltype(std::declval<X &>().M)>> : std::true_type { };
PARTS
#undef PART
template<class X, class = void> struct is_add : std::false_type { };
template<class X> struct is_add<X, std::void_t<decltype(std::declval<X &>().c_L1)>> : std::true_type { };
template<class X, class = void> struct is_dbl : std::false_type { };
template<class X> struct is_dbl<X, std::void_t<decltype(std::declval<X &>().c_4C)>> : std::true_type { };
static void put(tw::V &v, const tw::V &w) { v.insert(v.end(), w.begin(), w.end()); }
template<class T> tw::V numbers(const T &x) { return tw::flat(x); }
template<class T> tw::V numbers(const std::vector<T> &l) {
    tw::V v;
    for (auto &c : l) {
        if constexpr (is_add<T>::value) { put(v, tw::flat(c.c_L1)); put(v, tw::flat(c.c_RZ)); }
        else if constexpr (is_dbl<T>::value) { put(v, tw::flat(c.c_H)); put(v, tw::flat(c.c_4C)); put(v, tw::flat(c.c_J)); put(v, tw::flat(c.c_L)); }
        else { put(v, tw::flat(c.ell_0)); put(v, tw::flat(c.ell_VW)); put(v, tw::flat(c.ell_VV)); }
    }
    return v;
}
template<class P> void check(const P &a) {
    std::string s = txt::text(a);
    txt::J j = txt::read(s);
    std::size_t n = 0;
#define PART(M) if constexpr (has_##M<P>::value) { ++n; bool found = false; for (auto &q : j.sub) if (q.first == #M) { found = true; CHECK(txt::open(q.second) == numbers(a.M), #M " is shown differently on " << PC::name << ": " << s.substr(0, 600)); } \
        CHECK(found, "the text lacks " #M " on " << PC::name << ": " << s.substr(0, 600)); }
    PARTS
#undef PART
    CHECK(j.sub.size() == n, "the text has other parts than the precomputation on " << PC::name << ": " << s.substr(0, 600));
}
static void shown(vf::Src &S) {
    const rc::Curve &c1 = A1::C(), &c2 = A2::C();
    rc::Pt p = c1.draw_sub(S), q = c2.draw_sub(S);
    S.note(PC::name, " P=", p, " Q=", q);
    S.nontrivial(p != c1.zero() && q != c2.zero());
    check(alg::precompute_g1<CT>(A1::rep(S, p, S.flip())));
    check(alg::precompute_g2<CT>(A2::rep(S, q, S.flip())));
}
static vf::Reg r1((new std::string(std::string(PC::name) + "_text"))->c_str(), shown, 20, 300, "finite points", 200);
