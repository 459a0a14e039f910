// GMP reference arithmetic and conversions shared by the field, curve and pairing checks.
#ifndef VERIF_ZN_HPP
#define VERIF_ZN_HPP
#include <boost/multiprecision/cpp_int.hpp>
#include <gmpxx.h>
#include <type_traits>
#include "verif.hpp"

namespace zn {
typedef mpz_class Z;
template<class I> Z from_num(const I &v) {
    std::vector<unsigned char> b;
    boost::multiprecision::cpp_int t(v);
    export_bits(t, std::back_inserter(b), 8);
    Z r;
    mpz_import(r.get_mpz_t(), b.size(), 1, 1, 1, 0, b.data());
    return r;
}
template<class I> I to_num(const Z &v) {
    std::size_t n = (mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8;
    std::vector<unsigned char> b(n + 1, 0);
    std::size_t c = 0;
    mpz_export(b.data(), &c, 1, 1, 1, 0, v.get_mpz_t());
    b.resize(c ? c : 1);
    if (!c) b[0] = 0;
    boost::multiprecision::cpp_int t;
    import_bits(t, b.begin(), b.end(), 8);
    return I(t);
}
inline Z u(std::uint64_t x) { Z r; mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &x); return r; }
inline Z mod(const Z &a, const Z &p) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return r; }
inline Z powm(const Z &a, const Z &e, const Z &p) { Z r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t()); return r; }
inline Z inv(const Z &a, const Z &p) { Z r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return r; }
inline std::size_t bits(const Z &a) { return a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2); }
inline bool prime(const Z &a) { return mpz_probab_prime_p(a.get_mpz_t(), 25) > 0; }
inline std::string hex(const Z &a) { return (a < 0 ? "-0x" : "0x") + Z(abs(a)).get_str(16); }

// an integer of at most n bits, with extreme shapes often; 0 simplest
inline Z draw_bits(vf::Src &S, std::size_t n) {
    Z r = 0;
    if (n == 0) return r;
    switch (S.u64(5)) {
        case 0: return u(S.u64(n < 8 ? (1u << n) - 1 : 17));
        case 1: { r = 1; r <<= S.index(n); return r; }
        case 2: { r = 1; r <<= S.index(n) + 1; return r - 1; }
        case 3: {    // long runs of ones and zeros
            std::size_t pos = 0;
            while (pos < n) {
                std::size_t len = 1 + S.index(70);
                if (S.flip()) for (std::size_t i = pos; i < pos + len && i < n; ++i) mpz_setbit(r.get_mpz_t(), i);
                pos += len;
            }
            return r;
        }
        default: {
            for (std::size_t i = 0; i < n; i += 64) {
                std::uint64_t w = S.u64(~0ull);
                r += u(w) << i;
            }
            Z m = 1;
            m <<= n;
            return mod(r, m);
        }
    }
}
// a residue modulo p
inline Z draw_mod(vf::Src &S, const Z &p) {
    switch (S.u64(7)) {
        case 0: return mod(u(S.u64(9)), p);
        case 1: return mod(p - 1 - u(S.u64(9)), p);
        case 2: return mod((p - 1) / 2 + Z((long) S.range(-3, 3)), p);
        case 3: return mod(p - draw_bits(S, bits(p)), p);
        default: return mod(draw_bits(S, bits(p)), p);
    }
}
// an exponent or scalar; includes 0, 1, values around m and well beyond it
inline Z draw_scalar(vf::Src &S, const Z &m, std::size_t maxbits) {
    switch (S.u64(7)) {
        case 0: return u(S.u64(20));
        case 1: { Z r = m + Z((long) S.range(-4, 4)); return r < 0 ? Z(0) : (bits(r) > maxbits ? Z(m - 1) : r); }
        case 2: { Z r = (m / 2) + Z((long) S.range(-3, 3)); return r < 0 ? Z(0) : r; }
        case 3: return draw_bits(S, maxbits);
        case 4: return draw_bits(S, 1 + S.index(std::min<std::size_t>(maxbits, 64)));
        default: return mod(draw_bits(S, bits(m) + 1), m);
    }
}
}    // namespace zn
#endif
