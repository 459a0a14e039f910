// C21, C22: the wire format of BLS12-381 points.
#include <optional>
typedef std::vector<std::uint8_t> Bytes;
struct Refused { };
namespace boost {
inline void assertion_failed(char const *, char const *, char const *, long) { throw Refused(); }
inline void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { throw Refused(); }
}
using rc::Pt;
using rc::V;
using rc::Z;
typedef nil::marshalling::curve_element_serializer<rc::cv::bls12<381>> Ser;
typedef nil::marshalling::bincode::curve<rc::cv::bls12<381>> Bin;
static std::string hex(const Bytes &b) { std::string s; char t[3]; for (auto c : b) { std::snprintf(t, 3, "%02x", c); s += t; } return s; }
template<class C> Bytes bytes(const C &c) { return Bytes(c.begin(), c.end()); }
static void put(Bytes &b, const V &v) {    // highest coefficient first, big-endian
    for (std::size_t i = v.size(); i-- > 0;) {
        for (int k = 47; k >= 0; --k) { Z t = (v[i] >> (8 * k)) & 255; b.push_back((std::uint8_t) t.get_ui()); }
    }
}
static bool larger(const V &y, const Z &p) {    // y is the lexicographically larger root
    for (std::size_t i = y.size(); i-- > 0;) if (y[i] != 0) return y[i] > (p - 1) / 2;
    return false;
}
// the published format
static Bytes encode(const rc::Curve &c, const Pt &p, bool comp) {
    Bytes b;
    std::size_t n = 48 * c.T.size();
    if (p.inf) { b.assign(comp ? n : 2 * n, 0); b[0] = comp ? 0xC0 : 0x40; return b; }
    put(b, p.x);
    if (!comp) put(b, p.y);
    else b[0] |= 0x80 | (larger(p.y, c.T.p) ? 0x20 : 0);
    return b;
}
static bool take(const rc::Curve &c, const Bytes &b, std::size_t at, V &v) {
    std::size_t n = c.T.size();
    v = c.T.zero();
    for (std::size_t i = 0; i < n; ++i) {
        Z z = 0;
        for (std::size_t k = 0; k < 48; ++k) z = z * 256 + b[at + (n - 1 - i) * 48 + k];
        if (z >= c.T.p) return false;
        v[i] = z;
    }
    return true;
}
static std::optional<Pt> decode(const rc::Curve &c, Bytes b) {
    std::size_t n = 48 * c.T.size();
    if (b.empty()) return {};
    std::uint8_t f = b[0] & 0xE0;
    b[0] &= 0x1F;
    bool comp = f & 0x80, inf = f & 0x40, sign = f & 0x20;
    if (sign && (!comp || inf)) return {};
    if (b.size() != (comp ? n : 2 * n)) return {};
    if (inf) { for (auto x : b) if (x) return {}; return c.zero(); }
    V x, y;
    if (!take(c, b, 0, x)) return {};
    if (!comp) {
        if (!take(c, b, n, y)) return {};
        Pt p {false, x, y};
        if (!c.on(p)) return {};
        return p;
    }
    V y2 = c.T.add(c.cube(x), c.b);
    if (!c.square(y2)) return {};
    y = c.sqrt(y2);
    if (larger(y, c.T.p) != sign) y = c.T.neg(y);
    if (larger(y, c.T.p) != sign) return {};
    return Pt {false, x, y};
}
template<class G> typename rc::Ad<G, typename G::Default>::E lib_decode(const Bytes &b, int how) {
    // as the array of the format, or as a vector
    if constexpr (!G::second) {
        if (how == 0 && b.size() == 48) { Ser::compressed_g1_octets a; std::copy(b.begin(), b.end(), a.begin()); return Ser::octets_to_g1_point(a); }
        if (how == 0 && b.size() == 96) { Ser::uncompressed_g1_octets a; std::copy(b.begin(), b.end(), a.begin()); return Ser::octets_to_g1_point(a); }
        if (how == 2 && b.size() == 48) return Bin::g1_point_from_bytes(b.begin(), b.end());
        return Ser::octets_to_g1_point(b);
    } else {
        if (how == 0 && b.size() == 96) { Ser::compressed_g2_octets a; std::copy(b.begin(), b.end(), a.begin()); return Ser::octets_to_g2_point(a); }
        if (how == 0 && b.size() == 192) { Ser::uncompressed_g2_octets a; std::copy(b.begin(), b.end(), a.begin()); return Ser::octets_to_g2_point(a); }
        if (how == 2 && b.size() == 96) return Bin::g2_point_from_bytes(b.begin(), b.end());
        return Ser::octets_to_g2_point(b);
    }
}
// a cube root, in a field whose order is one modulo three
static std::optional<V> cube_root(const rc::Curve &c, const V &v) {
    if (tw::is0(v)) return v;
    const Z q = c.T.order();
    if (c.T.pow(v, q / 3) != c.T.one()) return {};
    Z t = q, m = 1;
    while (t % 3 == 0) { t /= 3; m *= 3; }
    static std::map<std::size_t, V> gen;    // generates the elements whose order is a power of three
    V &g = gen[c.T.size()];
    if (g.empty()) {
        V n = c.T.one();
        for (long i = 1;; ++i) { n[0] = i; if (n.size() > 1) n[1] = i % 5; if (c.T.pow(n, q / 3) != c.T.one()) break; }
        g = c.T.pow(n, t);
    }
    V x = c.T.pow(v, zn::mod(zn::inv(zn::mod(Z(3), t), t), t));
    for (Z j = 0; j < m; ++j, x = c.T.mul(x, g)) if (c.cube(x) == v) return x;
    return {};
}
// points whose ordinate lies where the rule for the sign changes: no imaginary or no real part, next to half the prime
static Pt draw(vf::Src &S, const rc::Curve &c) {
    if (!S.one_in(5)) return c.draw(S);
    const Z p = c.T.p, half = (p - 1) / 2;
    V y = c.T.zero();
    auto one = [&]() -> Z { switch (S.u64(3)) { case 0: return half - zn::u(S.u64(2)); case 1: return half + 1 + zn::u(S.u64(2)); case 2: return zn::u(S.u64(4)); default: return zn::draw_mod(S, p); } };
    y.back() = one();
    if (y.size() > 1) {
        std::uint64_t k = S.u64(2);
        if (k == 0) { y[0] = y[1]; y[1] = 0; }
        if (k == 2) y[0] = S.flip() ? one() : zn::draw_mod(S, p);
    }
    for (int i = 0; i < 30; ++i) {    // one in three has a cube root
        if (auto x = cube_root(c, c.T.sub(c.sq(y), c.b))) return Pt {false, *x, y};
        V &f = y; f[0] == 0 && f.size() > 1 ? f[1] = zn::mod(f[1] + 1, p) : f[0] = zn::mod(f[0] + 1, p);
    }
    return c.draw(S);
}
template<class G> void round_trip(vf::Src &S) {
    typedef rc::Ad<G, typename G::Default> A;
    const rc::Curve &c = A::C();
    Pt p = draw(S, c);
    bool comp = S.flip();
    int how = (int) S.u64(2);
    auto e = A::rep(S, p, S.flip()), k = e;
    S.note(G::name, " ", p, " compressed ", comp, " how ", how);
    S.nontrivial(!p.inf);
    Bytes want = encode(c, p, comp), got;
    if (comp && how == 2) {
        got.assign(want.size(), 0xA5);
        std::size_t n;
        if constexpr (!G::second) n = Bin::point_to_bytes<Bin::g1_type>(e, got.begin(), got.end());
        else n = Bin::point_to_bytes<Bin::g2_type>(e, got.begin(), got.end());
        CHECK(n == want.size(), "point_to_bytes says " << n << " octets");
    } else got = comp ? bytes(Ser::point_to_octets_compress(e)) : bytes(Ser::point_to_octets(e));
    CHECK(got == want, "the " << (comp ? "compressed" : "uncompressed") << " encoding of " << p << " is " << hex(got) << ", not " << hex(want) << " on " << G::name);
    CHECK(e == k, "encoding changed the point");
    try {
        auto d = lib_decode<G>(want, how);
        CHECK(A::back(d) == p, "decoding " << hex(want) << " gives " << A::back(d) << ", not " << p << " on " << G::name);
        CHECK(d == e, "the decoded point is not equal to the encoded one, " << p << " on " << G::name);
    } catch (Refused &) {
        CHECK(false, "decoding refuses " << hex(want) << ", the encoding of " << p << " on " << G::name);
    }
}
template<class G> void hostile(vf::Src &S) {
    typedef rc::Ad<G, typename G::Default> A;
    const rc::Curve &c = A::C();
    const Z &p = c.T.p;
    std::size_t n = 48 * c.T.size();
    Bytes b;
    std::uint64_t kind = S.u64(9);
    bool comp = S.flip();
    auto flags = [&]() { return (std::uint8_t) (S.u64(7) << 5); };
    auto wide = [&]() -> Z {    // a coordinate that need not be reduced
        Z l = 1;
        l <<= 381;
        switch (S.u64(5)) {
            case 0: return p + zn::u(S.u64(8));
            case 1: return l - 1 - zn::u(S.u64(8));
            case 2: return p + zn::mod(zn::draw_bits(S, 381), l - p);
            default: return zn::draw_mod(S, p);
        }
    };
    switch (kind) {
        case 0: case 1: {    // an encoding with a few bits or octets changed
            b = encode(c, draw(S, c), comp);
            for (unsigned k = 1 + S.u64(2); k-- > 0;) { std::size_t i = S.one_in(3) ? 0 : S.index(b.size()); if (S.flip()) b[i] ^= 1u << S.u64(7); else b[i] = (std::uint8_t) S.u64(255); }
            break;
        }
        case 2: {    // other flags
            b = encode(c, draw(S, c), comp);
            b[0] = (b[0] & 0x1F) | flags();
            break;
        }
        case 3: {    // identity with a payload
            b.assign(comp ? n : 2 * n, 0);
            b[0] = comp ? 0xC0 : 0x40;
            for (unsigned k = S.u64(2); k-- > 0;) { std::size_t i = S.index(b.size()); b[i] |= i ? (std::uint8_t) S.u64(255) : (std::uint8_t) S.u64(31); }
            break;
        }
        case 4: case 5: {    // a coordinate of another representative
            Pt q = draw(S, c);
            DISCARD_UNLESS(!q.inf);
            V x = q.x, y = q.y;
            Z l = 1;
            l <<= 381;
            std::size_t i = S.index(x.size());
            V &t = comp || S.flip() ? x : y;
            if (S.one_in(4)) { t[i] = 0; if (!comp) { y = q.y; } q = c.from(c.T.red(x), S.flip()); x = q.x; y = q.y; }
            V &u = comp ? x : S.flip() ? x : y;
            if (u[i] + p < l) u[i] += p;
            put(b, x);
            if (!comp) put(b, y); else b[0] |= 0x80 | (larger(q.y, p) ? 0x20 : 0);
            break;
        }
        case 6: {    // a small abscissa, reduced or not
            V x = c.T.zero();
            for (auto &k : x) if (S.flip()) k = zn::u(S.u64(40));
            if (S.flip()) x[S.index(x.size())] += p;
            put(b, x);
            if (comp) b[0] |= 0x80 | (S.flip() ? 0x20 : 0);
            else put(b, c.square(c.T.red(c.T.add(c.cube(c.T.red(x)), c.b))) ? c.sqrt(c.T.red(c.T.add(c.cube(c.T.red(x)), c.b))) : x);
            break;
        }
        case 7: {    // any coordinates
            V x = c.T.zero(), y = c.T.zero();
            for (auto &k : x) k = wide();
            for (auto &k : y) k = wide();
            put(b, x);
            if (!comp) put(b, y);
            b[0] = (b[0] & 0x1F) | (S.flip() ? (comp ? (S.flip() ? 0x80 : 0xA0) : 0) : flags());
            break;
        }
        case 8: {    // another length
            b = encode(c, draw(S, c), comp);
            if (S.one_in(8)) b.clear();
            else if (S.flip()) b.resize(S.u64(200), (std::uint8_t) S.u64(255));
            else if (S.flip()) b.push_back(0);
            else b.pop_back();
            break;
        }
        default: b.assign(comp ? n : 2 * n, 0); for (auto &k : b) k = (std::uint8_t) S.u64(255);
    }
    int how = (int) S.u64(2);
    if (how == 2 && b.size() != n) how = 1;
    std::optional<Pt> want = decode(c, b);
    S.note(G::name, " ", hex(b), " how ", how, want ? " valid" : " invalid");
    S.nontrivial(!want);
    CHECK(!want || encode(c, *want, b.size() == n) == b, "reference: accepted a second encoding");
    bool refused = false;
    Pt got;
    Bytes again;
    try {
        auto e = lib_decode<G>(b, how);
        got = A::back(e);
        again = b.at(0) & 0x80 ? bytes(Ser::point_to_octets_compress(e)) : bytes(Ser::point_to_octets(e));
    } catch (Refused &) { refused = true; }
    if (!want) CHECK(refused, "decoding accepts " << hex(b) << " as " << got << ", which re-encodes as " << hex(again) << ", on " << G::name);
    else {
        CHECK(!refused, "decoding refuses " << hex(b) << ", the encoding of " << *want << " on " << G::name);
        CHECK(got == *want, "decoding " << hex(b) << " gives " << got << ", not " << *want << " on " << G::name);
        CHECK(again == b, "decoding " << hex(b) << " and encoding gives " << hex(again) << " on " << G::name);
    }
}
#ifdef ENC21
static vf::Reg r1("g1_round_trip", round_trip<G_bls381_g1>, 3000, 200000, "the point is not the identity", 200);
static vf::Reg r2("g2_round_trip", round_trip<G_bls381_g2>, 1500, 100000, "the point is not the identity", 200);
#else
static vf::Reg r3("g1_hostile", hostile<G_bls381_g1>, 12000, 600000, "the octets are no canonical encoding", 120);
static vf::Reg r4("g2_hostile", hostile<G_bls381_g2>, 6000, 300000, "the octets are no canonical encoding", 120);
#endif
