// C27: field elements as octets.
#include <optional>
typedef std::vector<std::uint8_t> Bytes;
struct Refused { };
namespace boost {
inline void assertion_failed(char const *, char const *, char const *, long) { throw Refused(); }
inline void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { throw Refused(); }
}
using tw::V;
using zn::Z;
static std::string hex8(const Bytes &b) { std::string s; char t[3]; for (auto c : b) { std::snprintf(t, 3, "%02x", c); s += t; } return s; }
template<class F> struct Enc {
    typedef typename F::value_type E;
    typedef nil::marshalling::bincode::field<F> M;
    static const Z &p() { static Z v = zn::from_num(F::modulus); return v; }
    static std::size_t coeffs() { return tw::Flat<E>::n; }
    static std::size_t octets() { return (zn::bits(p()) + 7) / 8; }
    static Bytes ref(const V &v) {
        Bytes b;
        for (auto &c : v) for (std::size_t i = 0; i < octets(); ++i) { Z t = (c >> (8 * i)) & 255; b.push_back((std::uint8_t) t.get_ui()); }
        return b;
    }
    static Z coeff(vf::Src &S) {    // small and sparse values leave leading zero octets
        if (S.one_in(4)) return zn::mod(zn::draw_bits(S, 1 + S.index(zn::bits(p()))), p());
        if (S.one_in(6)) { Z t = 1; t <<= S.index(zn::bits(p())); return zn::mod(t - zn::u(S.u64(1)), p()); }
        return zn::draw_mod(S, p());
    }
    static void round_trip(vf::Src &S) {
        V v;
        for (std::size_t i = 0; i < coeffs(); ++i) v.push_back(S.one_in(5) ? Z(0) : coeff(S));
        Bytes want = ref(v);
        S.note(tw::str(v), " modulo ", zn::hex(p()));
        S.nontrivial(!tw::is0(v));
        const E e = tw::elt<E>(v);
        CHECK(M::get_element_size() == want.size() && M::field_octets_num == want.size(), "an element takes " << want.size() << " octets, not " << M::get_element_size());
        // the buffer holds something else before, and more around
        std::uint8_t fill = (std::uint8_t) S.pick({0, 0xFF, 0xA5, 1});
        Bytes buf(want.size() + 8, fill);
        std::size_t at = S.u64(8), n;
        if (S.flip()) n = M::field_element_to_bytes(e, buf.begin() + at, buf.begin() + at + want.size());
        else n = M::field_element_to_bytes(e, buf.data() + at, buf.data() + at + want.size());
        CHECK(n == want.size(), "field_element_to_bytes says " << n << " octets");
        Bytes got(buf.begin() + at, buf.begin() + at + want.size());
        CHECK(got == want, "the octets of " << tw::str(v) << " are " << hex8(got) << " instead of " << hex8(want) << " modulo " << zn::hex(p()) << " (buffer filled with " << (int) fill << " before)");
        for (std::size_t i = 0; i < buf.size(); ++i) if (i < at || i >= at + want.size()) CHECK(buf[i] == fill, "octet " << (long) i - (long) at << " outside the range was written");
        CHECK(tw::flat(e) == v, "encoding changed the element");
        const Bytes in(want);
        auto r = S.flip() ? M::field_element_from_bytes(in.begin(), in.end()) : M::field_element_from_bytes(in.data(), in.data() + in.size());
        CHECK(r.first, "the octets " << hex8(in) << " of " << tw::str(v) << " are called invalid, modulo " << zn::hex(p()));
        CHECK(tw::flat(r.second) == v && r.second == e, "the octets " << hex8(in) << " give " << tw::str(tw::flat(r.second)) << " instead of " << tw::str(v) << " modulo " << zn::hex(p()));
    }
    static void hostile(vf::Src &S) {
        V v;
        bool valid = true;
        Z l = 1;
        l <<= 8 * octets();
        std::size_t bad = S.index(coeffs() + 1);
        for (std::size_t i = 0; i < coeffs(); ++i) {
            Z c = coeff(S);
            if (i == bad) switch (S.u64(4)) {
                case 0: c = p() + zn::u(S.u64(3)); break;
                case 1: c += p(); break;
                case 2: c = l - 1 - zn::u(S.u64(3)); break;
                case 3: { Z t = 1; t <<= S.index(8 * octets()); c += t; break; }
                default: c = zn::draw_bits(S, 8 * octets());
            }
            if (c >= l) c = l - 1;
            valid = valid && c < p();
            v.push_back(c);
        }
        Bytes in = ref(v);
        S.note(hex8(in), " modulo ", zn::hex(p()), valid ? " valid" : " invalid");
        S.nontrivial(!valid);
        if (S.one_in(12)) {    // another length
            Bytes other(in);
            if (S.flip()) other.resize(S.u64(2 * in.size()), 0); else if (S.flip()) other.push_back(0); else other.pop_back();
            DISCARD_UNLESS(other.size() != in.size());
            bool refused = false;
            try { M::field_element_from_bytes(other.begin(), other.end()); } catch (Refused &) { refused = true; }
            CHECK(refused, other.size() << " octets are taken as an element of " << in.size() << ", modulo " << zn::hex(p()));
        }
        auto r = M::field_element_from_bytes(in.begin(), in.end());
        CHECK(r.first == valid, "the octets " << hex8(in) << " are called " << (r.first ? "valid" : "invalid") << " modulo " << zn::hex(p()));
        if (valid) CHECK(tw::flat(r.second) == v, "the octets " << hex8(in) << " give " << tw::str(tw::flat(r.second)) << " instead of " << tw::str(v) << " modulo " << zn::hex(p()));
    }
};
#define FREG(n, ...) static vf::Reg rt_##n("round_trip_" #n, Enc<__VA_ARGS__>::round_trip, 500, 10000, "the element is not zero", 60), ho_##n("hostile_" #n, Enc<__VA_ARGS__>::hostile, 600, 12000, "a coefficient is not reduced", 60);
#define XREG(X) FREG(ext_##X, X::F)
#ifdef FIELD_LIST
FIELD_LIST(FREG)
#endif
#ifdef EXT_LIST
EXT_LIST(XREG)
#endif
#ifdef WITH_CURVE
typedef nil::marshalling::bincode::curve<nil::crypto3::algebra::curves::bls12<381>> Bin;
// the curve class passes elements on
template<class F> void curve_field(vf::Src &S) {
    V v;
    for (std::size_t i = 0; i < Enc<F>::coeffs(); ++i) v.push_back(Enc<F>::coeff(S));
    S.note(tw::str(v));
    S.nontrivial(!tw::is0(v));
    Bytes want = Enc<F>::ref(v), got(want.size(), 0x5A);
    CHECK(Bin::element_size<F>() == want.size(), "element_size is " << Bin::element_size<F>());
    auto e = tw::elt<typename F::value_type>(v);
    std::size_t n = Bin::field_element_to_bytes<F>(e, got.begin(), got.end());
    CHECK(n == want.size() && got == want, "the octets of " << tw::str(v) << " are " << hex8(got) << " instead of " << hex8(want));
    auto r = Bin::field_element_from_bytes<F>(want.begin(), want.end());
    CHECK(r.first && tw::flat(r.second) == v, "the octets " << hex8(want) << " give " << tw::str(tw::flat(r.second)));
}
#define R27(n, T) static vf::Reg c_##n("curve_" #n, curve_field<Bin::T>, 400, 20000, "the element is not zero", 60);
R27(fp, fp_type) R27(fr, fr_type) R27(gt, gt_type)
#endif
