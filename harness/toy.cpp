#include "toy.hpp"
std::uint64_t F::p = 5;

F F::sqrt() const {
    if (v == 0) return *this;
    std::uint64_t q = p - 1;
    int s = 0;
    while (q % 2 == 0) q /= 2, ++s;
    F z(2);
    while (z.is_square()) z = z + F::one();
    F c = z.pow(q), x = pow((q + 1) / 2), t = pow(q);
    while (!t.is_one()) {
        int i = 0;
        F u = t;
        while (!u.is_one()) u = u.squared(), ++i;
        F b = c;
        for (int j = 0; j < s - i - 1; ++j) b = b.squared();
        x = x * b;
        c = b.squared();
        t = t * c;
        s = i;
    }
    return x;
}
static bool prime(std::uint64_t n) {
    if (n < 2) return false;
    for (std::uint64_t q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (n % q == 0) return n == q;
    std::uint64_t save = F::p;
    F::p = n;
    std::uint64_t d = n - 1;
    int s = 0;
    while (d % 2 == 0) d /= 2, ++s;
    bool ok = true;
    for (unsigned b : {2u, 3u, 5u, 7u, 11u, 13u, 17u, 19u, 23u, 29u, 31u, 37u}) {
        F x = F(b).pow(d);
        if (x.v == 1 || x.v == n - 1) continue;
        bool w = true;
        for (int i = 1; i < s && w; ++i) { x = x * x; if (x.v == n - 1) w = false; }
        if (w) { ok = false; break; }
    }
    F::p = save;
    return ok;
}
void toy_field(vf::Src &S) {
    std::uint64_t n;
    switch (S.u64(3)) {
        case 0: n = 5 + S.u64(40); break;
        case 1: n = 5 + S.u64(300); break;
        case 2: n = 5 + S.u64(1u << 16); break;
        default: n = 5 + S.u64((1ull << 61)); break;
    }
    while (!prime(n)) ++n;
    F::p = n;
}
Pt SW::add(Pt p, Pt q) const {
    if (p.inf) return q;
    if (q.inf) return p;
    F l;
    if (p.x == q.x) {
        if (p.y != q.y || p.y.is_zero()) return zero();
        l = (F(3) * p.x * p.x + a) / (F(2) * p.y);
    } else l = (q.y - p.y) / (q.x - p.x);
    F x = l * l - p.x - q.x;
    return Pt {false, x, l * (p.x - x) - p.y};
}
Pt Mont::add(Pt p, Pt q) const {
    if (p.inf) return q;
    if (q.inf) return p;
    F l;
    if (p.x == q.x) {
        if (p.y != q.y || p.y.is_zero()) return zero();
        l = (F(3) * p.x * p.x + F(2) * A * p.x + F(1)) / (F(2) * B * p.y);
    } else l = (q.y - p.y) / (q.x - p.x);
    F x = B * l * l - A - p.x - q.x;
    return Pt {false, x, l * (p.x - x) - p.y};
}
Pt Ed::add(Pt p, Pt q) const {
    F t = d * p.x * q.x * p.y * q.y, m = c * (F(1) + t), n = c * (F(1) - t);
    DISCARD_UNLESS(!m.is_zero() && !n.is_zero());
    return Pt {false, (p.x * q.y + p.y * q.x) / m, (p.y * q.y - a * p.x * q.x) / n};
}
SW gen_sw(vf::Src &S, int kind) {
    SW c;
    c.a = kind == 1 ? F(0) : kind == 2 ? F(-3) : any(S);
    // through a chosen point half of the time, so that points of order two occur
    if (S.flip()) { F x = any(S), y = S.u64(3) ? any(S) : F(0); c.b = y * y - x * x * x - c.a * x; } else c.b = any(S);
    DISCARD_UNLESS(!(F(4) * c.a * c.a * c.a + F(27) * c.b * c.b).is_zero());
    return c;
}
Ed gen_ed(vf::Src &S, int kind) {
    Ed e;
    e.c = F(1);
    if (kind == 2) { e.a = F(1); e.c = nonzero(S); e.d = nonzero(S); }
    else {
        e.a = kind == 1 || kind == 4 ? F(-1) : nonzero(S);
        e.d = nonzero(S);
        if (kind >= 3) {
            if (!e.a.is_square()) { DISCARD_UNLESS(kind == 3); F r = nonzero(S); e.a = r * r; }
            for (int i = 0; i < 200 && e.d.is_square(); ++i) e.d = e.d + F(1);
            DISCARD_UNLESS(!e.d.is_square());
        }
    }
    // non-singular: a d (a - d) != 0, and c d (1 - d c^4) != 0
    DISCARD_UNLESS(!(e.a * e.d).is_zero() && e.a != e.d * e.c * e.c * e.c * e.c);
    return e;
}
Pt gen_point(vf::Src &S, const SW &c) {
    if (S.one_in(8)) return c.zero();
    F x = any(S);
    for (int i = 0; i < 100; ++i, x = x + F(1)) {
        F r = x * x * x + c.a * x + c.b;
        if (r.is_square()) { F y = r.sqrt(); return Pt {false, x, S.flip() ? y : -y}; }
    }
    return c.zero();
}
Pt gen_point(vf::Src &S, const Mont &c) {
    if (S.one_in(8)) return c.zero();
    F x = any(S);
    for (int i = 0; i < 100; ++i, x = x + F(1)) {
        F r = (x * x * x + c.A * x * x + x) / c.B;
        if (r.is_square()) { F y = r.sqrt(); return Pt {false, x, S.flip() ? y : -y}; }
    }
    return c.zero();
}
Pt gen_point(vf::Src &S, const Ed &e) {
    if (S.one_in(8)) return e.zero();
    F y = any(S);
    for (int i = 0; i < 100; ++i, y = y + F(1)) {
        // a x^2 - c^2 d x^2 y^2 = c^2 - y^2
        F den = e.a - e.c * e.c * e.d * y * y;
        if (den.is_zero()) continue;
        F r = (e.c * e.c - y * y) / den;
        if (r.is_square()) { F x = r.sqrt(); return Pt {false, S.flip() ? x : -x, y}; }
    }
    return e.zero();
}
