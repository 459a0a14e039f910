// C28: a reader of the textual form of values.
#ifndef VERIF_TXT_HPP
#define VERIF_TXT_HPP
#include "zn.hpp"
#include <sstream>
namespace txt {
using zn::Z;
struct J {    // a JSON value without strings
    enum { NUMBER, LIST, RECORD } kind;
    Z num;
    std::vector<std::pair<std::string, J>> sub;    // the names of a list are empty
};
struct Bad { std::string why; };
struct Reader {
    const std::string &s;
    std::size_t i = 0;
    void blank() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i; }
    char peek() { blank(); return i < s.size() ? s[i] : 0; }
    void need(char c) { if (peek() != c) throw Bad {std::string("'") + c + "' expected at offset " + std::to_string(i)}; ++i; }
    J value() {
        J j;
        char c = peek();
        if (c == '[' || c == '{') {
            char e = c == '[' ? ']' : '}';
            j.kind = c == '[' ? J::LIST : J::RECORD;
            ++i;
            if (peek() == e) { ++i; return j; }
            for (;;) {
                std::string n;
                if (e == '}') {
                    need('"');
                    while (i < s.size() && s[i] != '"') n += s[i++];
                    need('"');
                    need(':');
                    for (auto &p : j.sub) if (p.first == n) throw Bad {"the name " + n + " twice"};
                }
                j.sub.emplace_back(n, value());
                if (peek() == e) { ++i; return j; }
                need(',');
            }
        }
        std::size_t b = i;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
        if (b == i) throw Bad {"a value expected at offset " + std::to_string(i)};
        if (i - b > 1 && s[b] == '0') throw Bad {"a number with a leading zero at offset " + std::to_string(b)};
        j.kind = J::NUMBER;
        j.num = Z(s.substr(b, i - b), 10);
        return j;
    }
    J all() { J j = value(); blank(); if (i != s.size()) throw Bad {"something follows the value at offset " + std::to_string(i)}; return j; }
};
inline J read(const std::string &s) {
    try { Reader r {s}; return r.all(); }
    catch (Bad &b) { CHECK(false, "the text is not well formed (" << b.why << "): " << s.substr(0, 700)); }
    throw 0;
}
template<class T> std::string text(const T &x) { std::ostringstream o; o << x; return o.str(); }
// the numbers of the text in order, nested lists opened
inline void open(const J &j, std::vector<Z> &v) { if (j.kind == J::NUMBER) v.push_back(j.num); else for (auto &p : j.sub) open(p.second, v); }
inline std::vector<Z> open(const J &j) { std::vector<Z> v; open(j, v); return v; }
}    // namespace txt
#endif
