// C24: random points of the published curves.
#include "rnd.hpp"
namespace alg = nil::crypto3::algebra;
template<class G, class Coord> struct C24 {
    typedef rc::Ad<G, Coord> A;
    typedef typename G::template group<Coord> Grp;
    template<class R> static void source(vf::Src &S, const R &start, bool plain) {
        R r = start, s = start;
        auto e = alg::random_element<Grp>(r), f = alg::random_element<Grp>(s);
        rc::Pt p = A::back(e);
        CHECK(A::C().on(p), "the random point " << p << " is not on " << G::name);
        CHECK(A::C().mul(A::C().r, p) == A::C().zero(), "the random point " << p << " is not in the subgroup of " << G::name);
        CHECK(A::back(f) == p && e == f, "the same stream gives " << p << " and " << A::back(f) << " on " << G::name);
        CHECK(r == s, "the same stream is left in two states on " << G::name);
        CHECK(!(r == start), "drawing a point takes nothing from the stream on " << G::name);
        rc::Pt q = A::back(alg::random_element<Grp>(r));
        rc::Pt u = A::back(alg::random_element<Grp>(r));
        if (plain) CHECK(!(q == p && u == p), "the stream gives the same point again, " << p << " on " << G::name);
        CHECK(A::back(alg::random_element<Grp>(R(start))) == p, "the same stream as a temporary gives another point on " << G::name);
    }
    static void stream(vf::Src &S) {
        switch (S.u64(2)) {
            case 0: return source(S, rnd::scripted<std::uint32_t>(S), false);
            case 1: { boost::random::mt19937 m((std::uint32_t) S.u64(~0u)); S.note("boost mt19937"); S.nontrivial(true); return source(S, m, true); }
            default: { std::mt19937_64 m(S.u64(~0ull)); S.note("std mt19937_64"); S.nontrivial(true); return source(S, m, true); }
        }
    }
};
#define REG24(G, Co) static vf::Reg r1_##G##_##Co(#G "_" #Co "_random", C24<G, rc::co::Co>::stream, 24, 800, "every case draws from a stream", 120);
GROUP_LIST(REG24)
