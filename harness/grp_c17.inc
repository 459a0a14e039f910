// C17: windowed exponentiation on the library's curves.
#include <nil/crypto3/algebra/wnaf.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
namespace alg = nil::crypto3::algebra;
template<class T, class = void> struct complete : std::false_type { };
template<class T> struct complete<T, std::void_t<decltype(sizeof(T))>> : std::true_type { };

template<class E, class I> E fixed(std::size_t w, const E &e, const rc::Z &k) { return alg::fixed_window_wnaf_exp(w, e, zn::to_num<I>(k)); }
template<class G, class Co> void window(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    typedef typename G::CurveT::scalar_field_type Fr;
    typedef typename Fr::integral_type I;
    const rc::Curve &c = A::C();
    rc::Pt p = c.draw(S);
    E e = A::rep(S, p, S.flip()), keep = e;
    std::size_t w = S.one_in(6) ? 6 + S.u64(4) : 1 + S.u64(4);
    bool wide = S.one_in(3);
    rc::Z k = zn::draw_scalar(S, c.r, wide ? 700 : zn::bits(c.r));
    if (!wide && zn::bits(k) > zn::bits(c.r)) k = zn::mod(k, c.r);
    S.note(G::name, " window ", w, " k=", zn::hex(k), " ", p);
    S.nontrivial(p != c.zero() && zn::bits(k) > w + 1);
    E got = wide ? fixed<E, boost::multiprecision::cpp_int>(w, e, k) : fixed<E, I>(w, e, k);
    rc::Pt want = c.mul(k, p), b = A::back(got);
    CHECK(b == want, "fixed_window_wnaf_exp of window " << w << ": " << zn::hex(k) << " times " << p << " is " << b << ", not " << want << " on " << G::name);
    CHECK(e == keep && A::back(e) == p, "fixed_window_wnaf_exp changed its argument");
}
template<class G, class Co> void automatic(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    if constexpr (complete<rc::cv::wnaf_params<typename G::template group<Co>>>::value && !G::edw2) {
        typedef typename G::CurveT::scalar_field_type Fr;
        typedef typename Fr::integral_type I;
        const rc::Curve &c = A::C();
        rc::Pt p = c.draw(S);
        E e = A::rep(S, p, S.flip());
        bool wide = S.one_in(3);
        rc::Z k = zn::draw_scalar(S, c.r, wide ? 700 : zn::bits(c.r));
        if (!wide && zn::bits(k) > zn::bits(c.r)) k = zn::mod(k, c.r);
        std::size_t n = S.flip() ? zn::bits(k) : S.u64(1 + S.index(400));
        S.note(G::name, " declared ", n, " k=", zn::hex(k), " ", p);
        S.nontrivial(p != c.zero() && n != zn::bits(k) && k > 1);
        E got = wide ? alg::opt_window_wnaf_exp(e, zn::to_num<boost::multiprecision::cpp_int>(k), n) : alg::opt_window_wnaf_exp(e, zn::to_num<I>(k), n);
        rc::Pt want = c.mul(k, p), b = A::back(got);
        CHECK(b == want, "opt_window_wnaf_exp of declared length " << n << ": " << zn::hex(k) << " times " << p << " is " << b << ", not " << want << " on " << G::name);
    }
}
template<class G, class Co> void table(vf::Src &S) {
    typedef rc::Ad<G, Co> A;
    typedef typename A::E E;
    typedef typename G::template group<Co> Gr;
    typedef typename G::CurveT::scalar_field_type Fr;
    typedef typename Fr::value_type FV;
    typedef typename Fr::integral_type I;
    const rc::Curve &c = A::C();
    std::size_t n = S.u64(4), size = 1 + S.u64(zn::bits(c.r) + 5);
    if (S.one_in(3)) size = zn::bits(c.r) + S.u64(2);
    std::size_t w = S.one_in(8) ? 5 + S.u64(2) : 1 + S.u64(4);
    rc::Pt p = c.draw(S);
    bool sub = S.flip();
    if (sub) p = c.draw_sub(S);    // the scaled batch reduces modulo the order
    E e = A::rep(S, p, S.flip());
    if constexpr (complete<rc::cv::multiexp_params<Gr>>::value) {
        if (S.flip()) {
            std::size_t m = S.flip() ? S.u64(20) : S.u64(3000000);
            w = alg::get_exp_window_size<Gr>(m);
            CHECK(w >= 1 && w <= 64, "get_exp_window_size(" << m << ") is " << w << " on " << G::name);
            if (w > 7) w = 7;
        }
    }
    auto t = alg::get_window_table<Gr>(size, w, e);
    CHECK(t.size() == (size + w - 1) / w, "get_window_table of size " << size << " and window " << w << " has " << t.size() << " rows");
    CHECK(A::back(e) == p, "get_window_table changed its argument");
    auto draw = [&]() { rc::Z k = zn::draw_bits(S, std::min(size, zn::bits(c.r))); if (k >= c.r) k = zn::mod(k, c.r); return k; };
    std::vector<FV> v;
    std::vector<rc::Z> z;
    for (std::size_t i = 0; i < n; ++i) { z.push_back(draw()); v.push_back(FV(zn::to_num<I>(z.back()))); }
    rc::Z k = draw();
    FV fk(zn::to_num<I>(k));
    S.note(G::name, " size ", size, " window ", w, " k=", zn::hex(k), " ", p);
    S.nontrivial(p != c.zero() && k > 1 && size % w != 0);
    auto one = alg::windowed_exp<Gr, Fr>(size, w, t, fk);
    rc::Pt want = c.mul(k, p), b = A::back(one);
    CHECK(b == want, "windowed_exp of size " << size << " and window " << w << ": " << zn::hex(k) << " times " << p << " is " << b << ", not " << want << " on " << G::name);
    auto all = alg::batch_exp<Gr, Fr>(size, w, t, v);
    CHECK(all.size() == n, "batch_exp of " << n << " scalars has " << all.size() << " results");
    for (std::size_t i = 0; i < n; ++i)
        CHECK(A::back(all[i]) == c.mul(z[i], p), "batch_exp: " << zn::hex(z[i]) << " times " << p << " is " << A::back(all[i]) << " on " << G::name);
    if (sub && size >= zn::bits(c.r)) {
        auto sc = alg::batch_exp_with_coeff<Gr, Fr>(size, w, t, fk, v);
        CHECK(sc.size() == n, "batch_exp_with_coeff of " << n << " scalars has " << sc.size() << " results");
        for (std::size_t i = 0; i < n; ++i)
            CHECK(A::back(sc[i]) == c.mul(zn::mod(rc::Z(k * z[i]), c.r), p), "batch_exp_with_coeff: " << zn::hex(k) << " times " << zn::hex(z[i]) << " times " << p << " is " << A::back(sc[i]) << " on " << G::name);
    }
}
#define REG17(G, Co) \
    static vf::Reg r1_##G##_##Co(#G "_" #Co "_window", window<G, rc::co::Co>, 40, 6000, "finite point; the scalar is wider than the window", 120); \
    static vf::Reg r2_##G##_##Co(#G "_" #Co "_automatic", automatic<G, rc::co::Co>, complete<rc::cv::wnaf_params<G::template group<rc::co::Co>>>::value ? 40 : 1, 6000, "finite point; the declared length is not that of the scalar", 120); \
    static vf::Reg r3_##G##_##Co(#G "_" #Co "_table", table<G, rc::co::Co>, 20, 3000, "finite point; the window does not divide the declared length", 120);
GROUP_LIST(REG17)
