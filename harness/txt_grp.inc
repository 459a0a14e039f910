// C28: the text of points.
#include "txt.hpp"
template<class X, class = void> struct has_Z_ : std::false_type { };
template<class X> struct has_Z_<X, std::void_t<decltype(std::declval<X &>().Z)>> : std::true_type { };
template<class X, class = void> struct has_T_ : std::false_type { };
template<class X> struct has_T_<X, std::void_t<decltype(std::declval<X &>().T)>> : std::true_type { };
template<class X, class = void> struct shows : std::false_type { };
template<class X> struct shows<X, std::void_t<decltype(std::declval<std::ostream &>() << std::declval<const X &>())>> : std::true_type { };
template<class G, class Co> void shown(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    if constexpr (shows<E>::value) {
        const rc::Curve &c = A::C();
        rc::Pt p = c.draw(S);
        const E e = A::rep(S, p, S.flip());
        S.note(G::name, " ", p);
        S.nontrivial(p != c.zero());
        std::ostringstream o;
        o << "<" << e << ">";
        CHECK(o.str().size() > 2 && o.str().front() == '<' && o.str().back() == '>', "the operator does not return its stream");
        std::string s = o.str().substr(1, o.str().size() - 2);
        txt::J j = txt::read(s);
        std::vector<std::pair<std::string, tw::V>> want = {{"X", tw::flat(e.X)}, {"Y", tw::flat(e.Y)}};
        if constexpr (has_Z_<E>::value) want.emplace_back("Z", tw::flat(e.Z));
        if constexpr (has_T_<E>::value) want.emplace_back("T", tw::flat(e.T));
        CHECK(j.kind == txt::J::RECORD && j.sub.size() == want.size(), "the text " << s << " has other parts than the point");
        for (auto &w : want) {
            bool found = false;
            for (auto &q : j.sub) if (q.first == w.first) { found = true; CHECK(txt::open(q.second) == w.second, "coordinate " << w.first << " is shown as " << s << " instead of " << tw::str(w.second) << " on " << G::name); }
            CHECK(found, "the text " << s << " lacks coordinate " << w.first << " on " << G::name);
        }
    }
}
#define REG28(G, Co) static vf::Reg r_##G##_##Co(#G "_" #Co "_text", shown<G, rc::co::Co>, 40, 3000, "finite point", 120);
GROUP_LIST(REG28)
