// C28: the text of field elements.
#include "txt.hpp"
using tw::V;
using zn::Z;
template<class E, class = void> struct Nest { static bool ok(const txt::J &j) { return j.kind == txt::J::NUMBER; } };
template<class E> struct Nest<E, std::void_t<typename E::underlying_type>> {
    static bool ok(const txt::J &j) {
        if (j.kind != txt::J::LIST || j.sub.size() != std::tuple_size<typename E::data_type>::value) return false;
        for (auto &p : j.sub) if (!Nest<typename E::underlying_type>::ok(p.second)) return false;
        return true;
    }
};
template<class F> struct Txt {
    typedef typename F::value_type E;
    static void shown(vf::Src &S) {
        static Z p = zn::from_num(F::modulus);
        V v;
        for (std::size_t i = 0; i < tw::Flat<E>::n; ++i) v.push_back(S.one_in(5) ? Z(0) : S.one_in(4) ? zn::mod(zn::draw_bits(S, 1 + S.index(zn::bits(p))), p) : zn::draw_mod(S, p));
        S.note(tw::str(v), " modulo ", zn::hex(p));
        S.nontrivial(!tw::is0(v));
        const E e = tw::elt<E>(v);
        std::ostringstream o;
        o << "<" << e << ">";
        CHECK(o.str().size() > 2 && o.str().front() == '<' && o.str().back() == '>', "the operator does not return its stream");
        std::string s = o.str().substr(1, o.str().size() - 2);
        txt::J j = txt::read(s);
        CHECK(Nest<E>::ok(j), "the text " << s << " does not have the structure of the element");
        CHECK(txt::open(j) == v, "the text of " << tw::str(v) << " is " << s << " modulo " << zn::hex(p));
        CHECK(tw::flat(e) == v, "the element changed");
        // with one coefficient different
        V w = v;
        std::size_t i = S.index(w.size());
        w[i] = zn::mod(w[i] + 1 + zn::u(S.u64(2)), p);
        CHECK(w == v || txt::text(tw::elt<E>(w)) != s, "two elements have the text " << s);
    }
};
#ifdef FIELD_LIST
#define R_(N, ...) static vf::Reg r_##N("text_" #N, Txt<__VA_ARGS__>::shown, 60, 3000, "the element is not zero");
FIELD_LIST(R_)
#endif
#ifdef EXT_LIST
#define R_(N) static vf::Reg r_##N((new std::string(std::string("text_") + N::name))->c_str(), Txt<N::F>::shown, 200, 6000, "the element is not zero");
EXT_LIST(R_)
#endif
