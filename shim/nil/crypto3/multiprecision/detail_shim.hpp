// Stand-in for the (absent) NilFoundation/crypto3-multiprecision library.
//
// crypto3-algebra's prime-field types are thin wrappers over
// boost::multiprecision::number<modular_adaptor<...>> from crypto3-multiprecision, which is not
// part of this repository and is not installed here.  This file provides the subset of its
// interface crypto3-algebra uses, on top of Boost.Multiprecision 1.83 and a small constexpr
// Montgomery implementation.  It is part of the trusted base of the checks (see DESIGN.md) and is
// itself compared against GMP by the prime-field check.
#ifndef VERIF_SHIM_CRYPTO3_MULTIPRECISION_HPP
#define VERIF_SHIM_CRYPTO3_MULTIPRECISION_HPP

#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

#include <boost/functional/hash.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/number.hpp>
#include <boost/multiprecision/miller_rabin.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/uniform_int.hpp>

namespace boost {
    namespace multiprecision {
        namespace backends {
            template<std::size_t Bits>
            using cpp_int_modular_backend = cpp_int_backend<Bits, Bits, unsigned_magnitude, unchecked, void>;
        }
        using backends::cpp_int_modular_backend;

        namespace verif_shim {
            using u64 = std::uint64_t;
            using u128 = unsigned __int128;

            template<typename Backend>
            struct bits_of;
            template<std::size_t B>
            struct bits_of<backends::cpp_int_backend<B, B, unsigned_magnitude, unchecked, void>> {
                static constexpr std::size_t value = B;
            };

            template<std::size_t Bits>
            struct limbs_for {
                static constexpr std::size_t value = (Bits + 63) / 64;
            };

            template<std::size_t N>
            struct limbs_t {
                u64 v[N] = {};
                constexpr u64 &operator[](std::size_t i) { return v[i]; }
                constexpr const u64 &operator[](std::size_t i) const { return v[i]; }
                constexpr bool operator==(const limbs_t &o) const {
                    for (std::size_t i = 0; i < N; ++i)
                        if (v[i] != o.v[i])
                            return false;
                    return true;
                }
                constexpr bool is_zero() const {
                    for (std::size_t i = 0; i < N; ++i)
                        if (v[i])
                            return false;
                    return true;
                }
            };

            template<std::size_t N>
            constexpr int cmp(const limbs_t<N> &a, const limbs_t<N> &b) {
                for (std::size_t i = N; i-- > 0;)
                    if (a[i] != b[i])
                        return a[i] < b[i] ? -1 : 1;
                return 0;
            }
            template<std::size_t N>
            constexpr u64 add_to(limbs_t<N> &a, const limbs_t<N> &b) {
                u64 c = 0;
                for (std::size_t i = 0; i < N; ++i) {
                    u128 t = (u128)a[i] + b[i] + c;
                    a[i] = (u64)t;
                    c = (u64)(t >> 64);
                }
                return c;
            }
            template<std::size_t N>
            constexpr u64 sub_from(limbs_t<N> &a, const limbs_t<N> &b) {
                u64 br = 0;
                for (std::size_t i = 0; i < N; ++i) {
                    u128 t = (u128)a[i] - b[i] - br;
                    a[i] = (u64)t;
                    br = (u64)(t >> 64) ? 1 : 0;
                }
                return br;
            }
            template<std::size_t N>
            constexpr std::size_t bitlen(const limbs_t<N> &a) {
                for (std::size_t i = N; i-- > 0;)
                    if (a[i]) {
                        std::size_t n = 0;
                        u64 w = a[i];
                        while (w) {
                            ++n;
                            w >>= 1;
                        }
                        return 64 * i + n;
                    }
                return 0;
            }

            // remainder of the NX-limb number x by the non-zero N-limb number m (Knuth D)
            template<std::size_t NX, std::size_t N>
            constexpr limbs_t<N> rem(const limbs_t<NX> &x, const limbs_t<N> &m) {
                limbs_t<N> r {};
                std::size_t n = (bitlen(m) + 63) / 64;
                if (n == 1) {
                    u128 c = 0;
                    for (std::size_t i = NX; i-- > 0;)
                        c = ((c << 64) | x[i]) % m[0];
                    r[0] = (u64)c;
                    return r;
                }
                unsigned s = (unsigned)(64 * n - bitlen(m));
                u64 d[N] = {};
                for (std::size_t i = 0; i < n; ++i)
                    d[i] = s ? ((m[i] << s) | (i ? m[i - 1] >> (64 - s) : 0)) : m[i];
                u64 u[NX + 1] = {};
                for (std::size_t i = 0; i < NX; ++i)
                    u[i] = s ? ((x[i] << s) | (i ? x[i - 1] >> (64 - s) : 0)) : x[i];
                u[NX] = s ? x[NX - 1] >> (64 - s) : 0;
                if (NX >= n) {
                    for (std::size_t j = NX - n + 1; j-- > 0;) {
                        u128 num = ((u128)u[j + n] << 64) | u[j + n - 1];
                        u128 q = num / d[n - 1];
                        u128 rr = num % d[n - 1];
                        while ((u64)(q >> 64) || (u128)(u64)q * d[n - 2] > ((rr << 64) | u[j + n - 2])) {
                            --q;
                            rr += d[n - 1];
                            if ((u64)(rr >> 64))
                                break;
                        }
                        u64 borrow = 0, carry = 0;
                        for (std::size_t i = 0; i < n; ++i) {
                            u128 p = (u128)(u64)q * d[i] + carry;
                            carry = (u64)(p >> 64);
                            u128 t = (u128)u[i + j] - (u64)p - borrow;
                            u[i + j] = (u64)t;
                            borrow = (u64)(t >> 64) ? 1 : 0;
                        }
                        u128 t = (u128)u[j + n] - carry - borrow;
                        u[j + n] = (u64)t;
                        if ((u64)(t >> 64)) {
                            u64 c = 0;
                            for (std::size_t i = 0; i < n; ++i) {
                                u128 a = (u128)u[i + j] + d[i] + c;
                                u[i + j] = (u64)a;
                                c = (u64)(a >> 64);
                            }
                            u[j + n] += c;
                        }
                    }
                }
                for (std::size_t i = 0; i < n; ++i)
                    r[i] = s ? ((u[i] >> s) | ((i + 1 < n ? u[i + 1] : 0) << (64 - s))) : u[i];
                return r;
            }

            // bits of any boost integer backend <-> limbs
            template<std::size_t N, typename Backend>
            constexpr limbs_t<N> to_limbs(const Backend &b) {
                limbs_t<N> r {};
                if constexpr (std::is_same<typename std::decay<decltype(*b.limbs())>::type, limb_type>::value) {
                    for (std::size_t i = 0; i < b.size() && i < N; ++i)
                        r[i] = b.limbs()[i];
                } else {
                    auto w = *b.limbs();
                    r[0] = (u64)w;
                    if constexpr (sizeof(w) > 8 && N > 1)
                        r[1] = (u64)(w >> 64);
                }
                return r;
            }
            template<typename Backend, std::size_t N>
            constexpr number<Backend> from_limbs(const limbs_t<N> &l) {
                number<Backend> r(0u);
                bool started = false;
                for (std::size_t i = N; i-- > 0;) {
                    if (started)
                        r <<= 64;
                    if (l[i]) {
                        r |= l[i];
                        started = true;
                    }
                }
                return r;
            }
        }    // namespace verif_shim

        namespace backends {
            // Precomputed data of one modulus.
            template<typename Backend>
            class modular_params {
            public:
                static constexpr std::size_t bits = verif_shim::bits_of<Backend>::value;
                static constexpr std::size_t N = verif_shim::limbs_for<bits>::value;
                typedef verif_shim::limbs_t<N> limbs;
                typedef number<Backend> number_type;
                limbs mod {};
                limbs R {};     // 2^(64N) mod m
                limbs R2 {};    // 2^(128N) mod m
                std::uint64_t n0 = 0;
                bool odd = false;

                constexpr modular_params() = default;
                constexpr modular_params(const Backend &m) { init(m); }
                constexpr modular_params(const number_type &m) { init(m.backend()); }
                constexpr number_type get_mod() const { return verif_shim::from_limbs<Backend>(mod); }

                constexpr void init(const Backend &m) {
                    mod = verif_shim::to_limbs<N>(m);
                    if (mod.is_zero())
                        return;
                    odd = mod[0] & 1;
                    verif_shim::limbs_t<N + 1> r {};
                    r[N] = 1;
                    R = verif_shim::rem(r, mod);
                    R2 = mulmod_plain(R, R);
                    std::uint64_t inv = 1;
                    for (int i = 0; i < 6; ++i)
                        inv *= 2 - mod[0] * inv;
                    n0 = 0 - inv;
                }
                constexpr limbs mulmod_plain(const limbs &a, const limbs &b) const {
                    verif_shim::limbs_t<2 * N> p {};
                    for (std::size_t i = 0; i < N; ++i) {
                        std::uint64_t c = 0;
                        for (std::size_t j = 0; j < N; ++j) {
                            verif_shim::u128 t = (verif_shim::u128)a[i] * b[j] + p[i + j] + c;
                            p[i + j] = (std::uint64_t)t;
                            c = (std::uint64_t)(t >> 64);
                        }
                        p[i + N] = c;
                    }
                    return verif_shim::rem(p, mod);
                }
                // representation product: Montgomery for odd moduli, plain otherwise
                constexpr limbs mul(const limbs &a, const limbs &b) const {
                    if (!odd)
                        return mulmod_plain(a, b);
                    std::uint64_t t[N + 2] = {};
                    for (std::size_t i = 0; i < N; ++i) {
                        std::uint64_t c = 0;
                        for (std::size_t j = 0; j < N; ++j) {
                            verif_shim::u128 s = (verif_shim::u128)a[j] * b[i] + t[j] + c;
                            t[j] = (std::uint64_t)s;
                            c = (std::uint64_t)(s >> 64);
                        }
                        verif_shim::u128 s = (verif_shim::u128)t[N] + c;
                        t[N] = (std::uint64_t)s;
                        t[N + 1] = (std::uint64_t)(s >> 64);
                        std::uint64_t q = t[0] * n0;
                        s = (verif_shim::u128)q * mod[0] + t[0];
                        c = (std::uint64_t)(s >> 64);
                        for (std::size_t j = 1; j < N; ++j) {
                            s = (verif_shim::u128)q * mod[j] + t[j] + c;
                            t[j - 1] = (std::uint64_t)s;
                            c = (std::uint64_t)(s >> 64);
                        }
                        s = (verif_shim::u128)t[N] + c;
                        t[N - 1] = (std::uint64_t)s;
                        t[N] = t[N + 1] + (std::uint64_t)(s >> 64);
                    }
                    limbs r {};
                    for (std::size_t i = 0; i < N; ++i)
                        r[i] = t[i];
                    if (t[N] || verif_shim::cmp(r, mod) >= 0)
                        verif_shim::sub_from(r, mod);
                    return r;
                }
                constexpr limbs enter(const limbs &a) const { return odd ? mul(a, R2) : a; }
                constexpr limbs leave(const limbs &a) const {
                    if (!odd)
                        return a;
                    limbs one {};
                    one[0] = 1;
                    return mul(a, one);
                }
            };

            template<typename Backend, const modular_params<Backend> &Params>
            class modular_params_ct {
            public:
                typedef modular_params<Backend> params_type;
                static constexpr const params_type &params() { return Params; }
            };

            template<typename Backend, typename StorageType>
            class modular_adaptor {
            public:
                typedef Backend value_backend;
                typedef modular_params<Backend> params_type;
                typedef typename params_type::limbs limbs;
                static constexpr std::size_t N = params_type::N;
                typedef std::tuple<signed char, short, int, long, long long> signed_types;
                typedef std::tuple<unsigned char, unsigned short, unsigned int, unsigned long, unsigned long long>
                    unsigned_types;
                typedef std::tuple<> float_types;
                typedef int exponent_type;

                limbs rep {};

                static constexpr const params_type &P() { return StorageType::params(); }
                constexpr const params_type &mod_data() const { return P(); }

                constexpr modular_adaptor() = default;

                template<typename B2>
                constexpr void assign_backend(const B2 &b) {
                    constexpr std::size_t M = verif_shim::limbs_for<(std::numeric_limits<number<B2>>::digits > 0 ?
                                                                         std::numeric_limits<number<B2>>::digits :
                                                                         64)>::value;
                    if constexpr (std::numeric_limits<number<B2>>::is_bounded) {
                        auto l = verif_shim::to_limbs<(M > N ? M : N)>(b);
                        rep = P().enter(verif_shim::rem(l, P().mod));
                    } else {
                        number<B2> x(b);
                        number<B2> m(from_mod<B2>());
                        x %= m;
                        if (x < 0)
                            x += m;
                        rep = P().enter(verif_shim::to_limbs<N>(x.backend()));
                    }
                    if constexpr (std::numeric_limits<number<B2>>::is_signed &&
                                  std::numeric_limits<number<B2>>::is_bounded) {
                        if (number<B2>(b) < 0)
                            negate();
                    }
                }
                template<typename B2>
                number<B2> from_mod() const {
                    number<B2> r(0);
                    for (std::size_t i = N; i-- > 0;) {
                        r <<= 64;
                        r += P().mod[i];
                    }
                    return r;
                }
                template<typename I>
                constexpr void assign_int(I x) {
                    limbs l {};
                    bool neg = false;
                    verif_shim::u128 a = 0;
                    if constexpr (std::is_signed<I>::value) {
                        neg = x < 0;
                        a = neg ? (verif_shim::u128)0 - (verif_shim::u128)(__int128)x : (verif_shim::u128)x;
                    } else
                        a = x;
                    verif_shim::limbs_t<(N > 2 ? N : 2)> w {};
                    w[0] = (std::uint64_t)a;
                    w[1] = (std::uint64_t)(a >> 64);
                    l = verif_shim::rem(w, P().mod);
                    rep = P().enter(l);
                    if (neg)
                        negate();
                }

                template<typename I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
                constexpr modular_adaptor(I x, const params_type &) { assign_int(x); }
                template<std::size_t A, std::size_t B, cpp_integer_type S, cpp_int_check_type C, class Al>
                constexpr modular_adaptor(const cpp_int_backend<A, B, S, C, Al> &b, const params_type &) {
                    assign_backend(b);
                }
                template<typename B2, expression_template_option ET>
                constexpr modular_adaptor(const number<B2, ET> &b, const params_type &) { assign_backend(b.backend()); }
                constexpr modular_adaptor(const modular_adaptor &o, const params_type &) : rep(o.rep) {}
                template<typename B2, typename S2>
                constexpr modular_adaptor(const modular_adaptor<B2, S2> &o, const params_type &) {
                    assign_backend(o.value_limbs_number().backend());
                }
                template<typename I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
                constexpr modular_adaptor(I x) { assign_int(x); }

                constexpr limbs value_limbs() const { return P().leave(rep); }
                constexpr number<Backend> value_limbs_number() const {
                    return verif_shim::from_limbs<Backend>(value_limbs());
                }
                constexpr void negate() {
                    if (rep.is_zero())
                        return;
                    limbs t = P().mod;
                    verif_shim::sub_from(t, rep);
                    rep = t;
                }
                constexpr void add(const modular_adaptor &o) {
                    std::uint64_t c = verif_shim::add_to(rep, o.rep);
                    if (c || verif_shim::cmp(rep, P().mod) >= 0)
                        verif_shim::sub_from(rep, P().mod);
                }
                constexpr void sub(const modular_adaptor &o) {
                    if (verif_shim::sub_from(rep, o.rep))
                        verif_shim::add_to(rep, P().mod);
                }
                constexpr void mul(const modular_adaptor &o) { rep = P().mul(rep, o.rep); }
                constexpr bool is_zero() const { return rep.is_zero(); }
                template<std::size_t A, std::size_t C, cpp_integer_type Sg, cpp_int_check_type Ch, class Al>
                explicit constexpr operator cpp_int_backend<A, C, Sg, Ch, Al>() const {
                    return number<cpp_int_backend<A, C, Sg, Ch, Al>>(value_limbs_number()).backend();
                }
                static constexpr modular_adaptor unit() {
                    modular_adaptor r;
                    r.assign_int(1u);
                    return r;
                }
                std::string str(std::streamsize d, std::ios_base::fmtflags f) const {
                    return value_limbs_number().str(d, f);
                }
            };
        }    // namespace backends
        using backends::modular_adaptor;
        using backends::modular_params;
        using backends::modular_params_ct;

        template<typename B, typename S>
        struct number_category<backends::modular_adaptor<B, S>>
            : public std::integral_constant<int, number_kind_integer> { };
        template<typename B, typename S>
        struct expression_template_default<backends::modular_adaptor<B, S>> {
            static constexpr expression_template_option value = et_off;
        };

        // number<modular_adaptor<...>>: own definition, no expression templates
        template<typename B, typename S, expression_template_option ET>
        class number<backends::modular_adaptor<B, S>, ET> {
        public:
            typedef backends::modular_adaptor<B, S> backend_type;
            typedef number self_type;
            typedef number value_type;
            typedef number<B> integral_type;

        private:
            backend_type m_backend;

        public:
            constexpr number() = default;
            constexpr number(const number &) = default;
            constexpr number(number &&) = default;
            constexpr number &operator=(const number &) = default;
            constexpr number &operator=(number &&) = default;
            constexpr number(const backend_type &b) : m_backend(b) {}
            template<typename I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
            constexpr number(I x) : m_backend(x) {}
            template<typename T, typename = typename std::enable_if<
                                     std::is_constructible<backend_type, T, modular_params<B>>::value>::type>
            constexpr number(const T &x, const modular_params<B> &p) : m_backend(x, p) {}
            template<std::size_t A, std::size_t C, cpp_integer_type Sg, cpp_int_check_type Ch, class Al,
                     expression_template_option E2>
            explicit constexpr number(const number<backends::cpp_int_backend<A, C, Sg, Ch, Al>, E2> &x) :
                m_backend(x, backend_type::P()) {}

            constexpr const backend_type &backend() const { return m_backend; }
            constexpr backend_type &backend() { return m_backend; }
            constexpr bool is_zero() const { return m_backend.is_zero(); }
            constexpr int sign() const { return is_zero() ? 0 : 1; }
            constexpr int compare(const number &o) const {
                return verif_shim::cmp(m_backend.value_limbs(), o.m_backend.value_limbs());
            }
            std::string str(std::streamsize d = 0, std::ios_base::fmtflags f = std::ios_base::fmtflags(0)) const {
                return m_backend.str(d, f);
            }

            constexpr integral_type to_integral() const { return m_backend.value_limbs_number(); }
            template<typename T>
            constexpr T convert_to() const {
                if constexpr (std::is_same<T, number>::value)
                    return *this;
                else if constexpr (std::is_same<T, integral_type>::value)
                    return to_integral();
                else
                    return static_cast<T>(to_integral());
            }
            template<typename T,
                     typename std::enable_if<std::is_arithmetic<T>::value ||
                                                 (is_number<T>::value && !std::is_same<T, number>::value),
                                             int>::type = 0>
            explicit constexpr operator T() const {
                return convert_to<T>();
            }

            constexpr number &operator+=(const number &o) {
                m_backend.add(o.m_backend);
                return *this;
            }
            constexpr number &operator-=(const number &o) {
                m_backend.sub(o.m_backend);
                return *this;
            }
            constexpr number &operator*=(const number &o) {
                m_backend.mul(o.m_backend);
                return *this;
            }
            constexpr number &operator/=(const number &o) { return *this *= inverse_mod(o); }
            constexpr number operator-() const {
                number r(*this);
                r.m_backend.negate();
                return r;
            }
            constexpr number operator+() const { return *this; }
            constexpr number &operator++() { return *this += number(backend_type::unit()); }
            constexpr number &operator--() { return *this -= number(backend_type::unit()); }

            friend constexpr number operator+(const number &a, const number &b) { number r(a); return r += b; }
            friend constexpr number operator+(const number &a, number &&b) { number r(a); return r += b; }
            friend constexpr number operator+(number &&a, const number &b) { number r(a); return r += b; }
            friend constexpr number operator+(number &&a, number &&b) { number r(a); return r += b; }
            friend constexpr number operator-(const number &a, const number &b) { number r(a); return r -= b; }
            friend constexpr number operator-(const number &a, number &&b) { number r(a); return r -= b; }
            friend constexpr number operator-(number &&a, const number &b) { number r(a); return r -= b; }
            friend constexpr number operator-(number &&a, number &&b) { number r(a); return r -= b; }
            friend constexpr number operator*(const number &a, const number &b) { number r(a); return r *= b; }
            friend constexpr number operator*(const number &a, number &&b) { number r(a); return r *= b; }
            friend constexpr number operator*(number &&a, const number &b) { number r(a); return r *= b; }
            friend constexpr number operator*(number &&a, number &&b) { number r(a); return r *= b; }
            friend constexpr number operator/(const number &a, const number &b) { number r(a); return r /= b; }
            friend constexpr number operator/(const number &a, number &&b) { number r(a); return r /= b; }
            friend constexpr number operator/(number &&a, const number &b) { number r(a); return r /= b; }
            friend constexpr number operator/(number &&a, number &&b) { number r(a); return r /= b; }
            friend constexpr bool operator==(const number &a, const number &b) {
                return a.m_backend.rep == b.m_backend.rep;
            }
            friend constexpr bool operator!=(const number &a, const number &b) { return !(a == b); }
            friend constexpr bool operator<(const number &a, const number &b) { return a.compare(b) < 0; }
            friend constexpr bool operator>(const number &a, const number &b) { return a.compare(b) > 0; }
            friend constexpr bool operator<=(const number &a, const number &b) { return a.compare(b) <= 0; }
            friend constexpr bool operator>=(const number &a, const number &b) { return a.compare(b) >= 0; }
            friend std::ostream &operator<<(std::ostream &os, const number &a) {
                return os << a.str(os.precision(), os.flags());
            }

            // inverse; the inverse of zero is reported as zero
            friend constexpr number inverse_mod(const number &a) {
                const auto &P = backend_type::P();
                constexpr std::size_t N = backend_type::N;
                if (a.is_zero())
                    return a;
                // Binary extended Euclid on odd moduli.
                verif_shim::limbs_t<N> u = a.m_backend.value_limbs(), v = P.mod, b {}, c {};
                if (!P.odd)
                    throw std::runtime_error("inverse_mod: even modulus");
                b[0] = 1;
                auto is_one = [](const verif_shim::limbs_t<N> &x) {
                    if (x[0] != 1)
                        return false;
                    for (std::size_t i = 1; i < N; ++i)
                        if (x[i])
                            return false;
                    return true;
                };
                auto shr = [](verif_shim::limbs_t<N> &x, std::uint64_t top) {
                    for (std::size_t i = 0; i + 1 < N; ++i)
                        x[i] = (x[i] >> 1) | (x[i + 1] << 63);
                    x[N - 1] = (x[N - 1] >> 1) | (top << 63);
                };
                auto half = [&](verif_shim::limbs_t<N> &x) {
                    std::uint64_t top = 0;
                    if (x[0] & 1)
                        top = verif_shim::add_to(x, P.mod);
                    shr(x, top);
                };
                auto submod = [&](verif_shim::limbs_t<N> &x, const verif_shim::limbs_t<N> &y) {
                    if (verif_shim::sub_from(x, y))
                        verif_shim::add_to(x, P.mod);
                };
                while (!is_one(u) && !is_one(v)) {
                    if (u.is_zero() || v.is_zero())
                        throw std::runtime_error("inverse_mod: not invertible");
                    while (!(u[0] & 1)) {
                        shr(u, 0);
                        half(b);
                    }
                    while (!(v[0] & 1)) {
                        shr(v, 0);
                        half(c);
                    }
                    if (verif_shim::cmp(u, v) >= 0) {
                        verif_shim::sub_from(u, v);
                        submod(b, c);
                    } else {
                        verif_shim::sub_from(v, u);
                        submod(c, b);
                    }
                }
                number r;
                r.m_backend.rep = P.enter(is_one(u) ? b : c);
                return r;
            }
        };

        template<typename T, typename B, typename S, expression_template_option ET>
        struct is_compatible_arithmetic_type<T, number<backends::modular_adaptor<B, S>, ET>>
            : public std::integral_constant<bool, false> { };

        namespace detail {
            template<typename B, typename S, expression_template_option ET, typename V>
            struct is_valid_mixed_compare<number<backends::modular_adaptor<B, S>, ET>, V>
                : public std::integral_constant<bool, false> { };
            template<typename B, typename S, expression_template_option ET, typename V>
            struct is_valid_mixed_compare<V, number<backends::modular_adaptor<B, S>, ET>>
                : public std::integral_constant<bool, false> { };
            template<typename B, typename S, expression_template_option ET>
            struct is_valid_mixed_compare<number<backends::modular_adaptor<B, S>, ET>,
                                          number<backends::modular_adaptor<B, S>, ET>>
                : public std::integral_constant<bool, false> { };
        }    // namespace detail

        template<typename B, typename S, expression_template_option ET>
        constexpr std::size_t msb(const number<backends::modular_adaptor<B, S>, ET> &a) {
            auto l = a.backend().value_limbs();
            std::size_t n = verif_shim::bitlen(l);
            if (n == 0)
                throw std::domain_error("No bits were set in the operand.");
            return n - 1;
        }
        template<typename B, typename S, expression_template_option ET>
        constexpr bool bit_test(const number<backends::modular_adaptor<B, S>, ET> &a, std::size_t i) {
            auto l = a.backend().value_limbs();
            return i / 64 < backends::modular_adaptor<B, S>::N && ((l[i / 64] >> (i % 64)) & 1);
        }

        namespace verif_shim {
            template<typename M, typename E>
            constexpr M pow_bits(const M &base, const E &e) {
                M r(M::backend_type::unit());
                if (e == 0u)
                    return r;
                for (long i = (long)msb(e); i >= 0; --i) {
                    r *= r;
                    if (bit_test(e, (std::size_t)i))
                        r *= base;
                }
                return r;
            }
            constexpr inline std::size_t msb(std::uint64_t e) {
                std::size_t n = 0;
                while (e >>= 1)
                    ++n;
                return n;
            }
            constexpr inline bool bit_test(std::uint64_t e, std::size_t i) { return (e >> i) & 1; }
        }    // namespace verif_shim

        template<typename B, typename S, expression_template_option ET, typename B2, expression_template_option E2>
        constexpr number<backends::modular_adaptor<B, S>, ET>
            powm(const number<backends::modular_adaptor<B, S>, ET> &b, const number<B2, E2> &e) {
            using boost::multiprecision::bit_test;
            using boost::multiprecision::msb;
            if constexpr (std::numeric_limits<number<B2, E2>>::is_signed) {
                if (e < 0)
                    return powm(inverse_mod(b), number<B2, E2>(-e));
            }
            return verif_shim::pow_bits(b, e);
        }
        template<typename B, typename S, expression_template_option ET, typename I,
                 typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
        constexpr number<backends::modular_adaptor<B, S>, ET>
            powm(const number<backends::modular_adaptor<B, S>, ET> &b, I e) {
            if constexpr (std::is_signed<I>::value) {
                if (e < 0)
                    return verif_shim::pow_bits(inverse_mod(b), (std::uint64_t)0 - (std::uint64_t)e);
            }
            return verif_shim::pow_bits(b, (std::uint64_t)e);
        }

        // square root modulo a prime (Tonelli-Shanks); 0 when there is none
        template<typename B, typename S, expression_template_option ET>
        constexpr number<backends::modular_adaptor<B, S>, ET>
            ressol(const number<backends::modular_adaptor<B, S>, ET> &a) {
            typedef number<backends::modular_adaptor<B, S>, ET> M;
            if (a.is_zero())
                return a;
            const M one(M::backend_type::unit());
            number<B> p1 = M::backend_type::P().get_mod();
            --p1;
            number<B> half(p1);
            half >>= 1;
            if (p1 == 1u)
                return a;
            if (powm(a, half) != one)
                return M();
            std::size_t s = 0;
            number<B> q(p1);
            while (!(q & 1u)) {
                q >>= 1;
                ++s;
            }
            M z(one);
            do {
                z += one;
            } while (powm(z, half) == one);
            M c = powm(z, q), t = powm(a, q);
            ++q;
            q >>= 1;
            M r = powm(a, q);
            std::size_t m = s;
            while (!(t == one)) {
                std::size_t i = 0;
                M t2 = t;
                while (!(t2 == one)) {
                    t2 *= t2;
                    if (++i >= m)
                        return M();
                }
                M b = c;
                for (std::size_t j = 0; j + i + 1 < m; ++j)
                    b *= b;
                r *= b;
                c = b * b;
                t *= c;
                m = i;
            }
            return r;
        }

        // windowed non-adjacent form, least significant digit first
        template<typename B, expression_template_option ET>
        std::vector<long> find_wnaf(std::size_t window_size, const number<B, ET> &scalar) {
            cpp_int c(scalar.str());
            std::vector<long> res;
            const long w = 1l << (window_size + 1);
            while (c != 0) {
                long u = 0;
                if ((c & 1) != 0) {
                    u = static_cast<long>(cpp_int(c % w));
                    if (u > w / 2)
                        u -= w;
                    if (u > 0)
                        c -= u;
                    else
                        c += -u;
                }
                res.push_back(u);
                c >>= 1;
            }
            return res;
        }

        namespace verif_shim {
            template<std::size_t Bits>
            constexpr number<backends::cpp_int_modular_backend<Bits>> parse_hex(const char *s) {
                constexpr std::size_t N = (Bits + 63) / 64;
                limbs_t<N> l {};
                std::size_t n = 0;
                while (s[n])
                    ++n;
                if (n > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
                    std::size_t k = 0;
                    for (std::size_t i = n; i-- > 2;) {
                        char c = s[i];
                        if (c == '\'')
                            continue;
                        u64 d = c >= '0' && c <= '9' ? c - '0' :
                                c >= 'a' && c <= 'f' ? c - 'a' + 10 :
                                                       c - 'A' + 10;
                        if (d) {
                            if (k / 16 >= N)
                                throw std::range_error("literal too wide");
                            l[k / 16] |= d << (4 * (k % 16));
                        }
                        ++k;
                    }
                } else {
                    for (std::size_t i = 0; i < n; ++i) {
                        u64 c = (u64)(s[i] - '0');
                        for (std::size_t j = 0; j < N; ++j) {
                            u128 t = (u128)l[j] * 10 + c;
                            l[j] = (u64)t;
                            c = (u64)(t >> 64);
                        }
                    }
                }
                return from_limbs<backends::cpp_int_modular_backend<Bits>>(l);
            }
        }    // namespace verif_shim
    }        // namespace multiprecision
}    // namespace boost

namespace std {
    template<typename B, typename S, boost::multiprecision::expression_template_option ET>
    struct hash<boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<B, S>, ET>> {
        std::size_t operator()(
            const boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<B, S>, ET> &a) const {
            std::size_t r = 0;
            auto l = a.backend().value_limbs();
            for (auto w : l.v)
                boost::hash_combine(r, w);
            return r;
        }
    };
    template<typename B, typename S, boost::multiprecision::expression_template_option ET>
    class numeric_limits<boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<B, S>, ET>> {
    public:
        static constexpr bool is_specialized = false;
        static constexpr bool is_signed = false;
        static constexpr bool is_integer = true;
        static constexpr bool is_exact = true;
    };
}    // namespace std

#define BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(Bits)                                                     \
    template<char... C>                                                                                         \
    constexpr auto operator""_cppui_modular##Bits() {                                                           \
        constexpr char s[] = {C..., 0};                                                                         \
        return boost::multiprecision::verif_shim::parse_hex<Bits + 0 * sizeof...(C)>(s);                        \
    }
#include <nil/crypto3/multiprecision/literals_shim.hpp>

#endif
