// A prime field whose modulus is chosen per case, and textbook curve arithmetic over it.
#ifndef VERIF_TOY_HPP
#define VERIF_TOY_HPP
#include "verif.hpp"
#include <array>
#include <cassert>
#include <cmath>
#include <type_traits>

struct F {
    static std::uint64_t p;    // below 2^62
    std::uint64_t v;
    constexpr F() : v(0) { }
    template<class I, class = typename std::enable_if<std::is_integral<I>::value>::type>
    constexpr F(I x) : v(0) {
        if (std::is_signed<I>::value && x < I(0)) { std::uint64_t m = (std::uint64_t) (-(__int128) x % p); v = m ? p - m : 0; }
        else v = (std::uint64_t) x % p;
    }
    static F raw(std::uint64_t x) { F r; r.v = x; return r; }
    static F zero() { return F(); }
    static F one() { return raw(1); }
    bool is_zero() const { return v == 0; }
    bool is_one() const { return v == 1; }
    friend F operator+(F a, F b) { std::uint64_t s = a.v + b.v; return raw(s >= p ? s - p : s); }
    friend F operator-(F a, F b) { return raw(a.v >= b.v ? a.v - b.v : a.v + p - b.v); }
    friend F operator*(F a, F b) { return raw((std::uint64_t) ((unsigned __int128) a.v * b.v % p)); }
    friend F operator*(std::uint64_t a, F b) { return F(a) * b; }
    friend F operator*(unsigned a, F b) { return F(a) * b; }
    friend F operator*(int a, F b) { return F(a) * b; }
    friend F operator*(F b, std::uint64_t a) { return F(a) * b; }
    friend F operator*(F b, unsigned a) { return F(a) * b; }
    friend F operator*(F b, int a) { return F(a) * b; }
    F operator-() const { return raw(v ? p - v : 0); }
    F operator+() const { return *this; }
    F &operator+=(F b) { return *this = *this + b; }
    F &operator-=(F b) { return *this = *this - b; }
    F &operator*=(F b) { return *this = *this * b; }
    F &operator/=(F b) { return *this = *this * b.inversed(); }
    friend F operator/(F a, F b) { return a * b.inversed(); }
    friend bool operator==(F a, F b) { return a.v == b.v; }
    friend bool operator!=(F a, F b) { return a.v != b.v; }
    friend bool operator<(F a, F b) { return a.v < b.v; }
    F doubled() const { return *this + *this; }
    F squared() const { return *this * *this; }
    F pow(std::uint64_t e) const { F r = one(), b = *this; for (; e; e >>= 1, b = b * b) if (e & 1) r = r * b; return r; }
    F inversed() const { return pow(p - 2); }    // 0 for 0
    void square_inplace() { *this = squared(); }
    void double_inplace() { *this = doubled(); }
    bool is_square() const { return v == 0 || pow((p - 1) / 2).v == 1; }
    F sqrt() const;    // a root of a square (Tonelli-Shanks)
    friend std::ostream &operator<<(std::ostream &o, F x) { return o << x.v; }
};
struct FieldTag { typedef F value_type; typedef std::uint64_t integral_type; };

// a prime field: tiny fields make exceptional pairs of points frequent, big ones make accidents rare
void toy_field(vf::Src &S);

struct Pt {
    bool inf;
    F x, y;
    friend bool operator==(const Pt &a, const Pt &b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }
    friend bool operator!=(const Pt &a, const Pt &b) { return !(a == b); }
    friend std::ostream &operator<<(std::ostream &o, const Pt &p) { if (p.inf) return o << "O"; return o << "(" << p.x << "," << p.y << ")"; }
};
// y^2 = x^3 + a x + b
struct SW {
    F a, b;
    bool on(Pt p) const { return p.inf || p.y * p.y == p.x * p.x * p.x + a * p.x + b; }
    Pt neg(Pt p) const { if (!p.inf) p.y = -p.y; return p; }
    Pt zero() const { return Pt {true, F(), F()}; }
    Pt add(Pt p, Pt q) const;
};
// B y^2 = x^3 + A x^2 + x
struct Mont {
    F A, B;
    bool on(Pt p) const { return p.inf || B * p.y * p.y == p.x * p.x * p.x + A * p.x * p.x + p.x; }
    Pt neg(Pt p) const { if (!p.inf) p.y = -p.y; return p; }
    Pt zero() const { return Pt {true, F(), F()}; }
    Pt add(Pt p, Pt q) const;
};
// a x^2 + y^2 = c^2 (1 + d x^2 y^2); a = 1 or c = 1
struct Ed {
    F a, d, c;
    bool on(Pt p) const { F X = p.x * p.x, Y = p.y * p.y; return !p.inf && a * X + Y == c * c * (F(1) + d * X * Y); }
    Pt neg(Pt p) const { p.x = -p.x; return p; }
    Pt zero() const { return Pt {false, F(), c}; }
    Pt add(Pt p, Pt q) const;    // discards the case where the sum is not affine
};
SW gen_sw(vf::Src &S, int kind);     // kind 0: any, 1: a = 0, 2: a = -3
Ed gen_ed(vf::Src &S, int kind);     // kind 0: twisted (c = 1), 1: a = -1 (c = 1), 2: a = 1 with c, 3: complete twisted, 4: complete with a = -1
Pt gen_point(vf::Src &S, const SW &c);
Pt gen_point(vf::Src &S, const Ed &c);
Pt gen_point(vf::Src &S, const Mont &c);
template<class C> Pt times(const C &c, std::uint64_t k, Pt p) {
    Pt r = c.zero();
    for (; k; k >>= 1, p = c.add(p, p)) if (k & 1) r = c.add(r, p);
    return r;
}
template<class C> Pt odd_part(const C &c, Pt p) {
    int n = 2;
    for (std::uint64_t q = F::p; q; q >>= 1) ++n;
    while (n--) p = c.add(p, p);
    return p;
}
// a second point: independent of the first, equal, opposite, a small multiple, identity
template<class C> Pt gen_related(vf::Src &S, const C &c, Pt p) {
    switch (S.u64(6)) {
        case 0: return p;
        case 1: return c.neg(p);
        case 2: return times(c, S.u64(5), p);
        default: return gen_point(S, c);
    }
}
inline F nonzero(vf::Src &S) { return F::raw(1 + S.u64(F::p - 2)); }
inline F any(vf::Src &S) { return F::raw(S.u64(F::p - 1)); }
#endif
