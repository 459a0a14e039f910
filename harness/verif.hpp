// Small property-based-testing engine: every random decision of a case is a recorded choice, so a
// case is replayed, shrunk and stored as its list of choices.  See DESIGN.md.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

struct Discard { };                  // the case is not a valid input of the property
struct Fail { std::string msg; };    // the oracle disagreed

// number of draws kept in the shared record
constexpr std::size_t MAX_DRAWS = 1u << 16;

class Src {
public:
    // a uniformly drawn integer in [0, bound]; smaller is simpler
    std::uint64_t u64(std::uint64_t bound);
    // in [lo, hi]
    std::int64_t range(std::int64_t lo, std::int64_t hi);
    bool flip() { return u64(1) != 0; }
    // true once in n
    bool one_in(std::uint64_t n) { return u64(n - 1) == n - 1 && n > 1; }
    std::size_t index(std::size_t n) { return (std::size_t) u64(n - 1); }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + index(l.size())); }
    template<class V> const typename V::value_type &pick_from(const V &v) { return v[index(v.size())]; }
    // small integers most of the time, extreme ones sometimes; 0 simplest; |x| <= max
    std::int64_t integer(std::int64_t max);

    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
    bool is_nontrivial = false;
    bool verbose = false;
    template<class... A> void note(const A &...a) {
        if (!verbose) return;
        std::ostringstream os;
        int dummy[] = {0, ((os << a), 0)...};
        (void) dummy;
        if (!notes.empty()) notes += "; ";
        notes += os.str();
        publish();
    }
    std::string notes;
    void publish();    // keep the notes even if the case crashes

    // engine side
    std::uint64_t s0 = 1, s1 = 2;
    const std::uint64_t *replay = nullptr;
    std::size_t replay_n = 0;
    std::uint64_t *rec = nullptr;    // shared record
    volatile std::size_t *rec_n = nullptr;
    std::size_t drawn = 0;
    std::uint64_t next();
};

struct Prop {
    const char *name;
    void (*fn)(Src &);
    std::uint64_t quick, thorough;    // number of cases
    const char *rule;                 // what makes a case non-trivial
    double case_cpu_s;                // a case that uses more CPU time than this is a hang
};
std::vector<Prop> &registry();
struct Reg {
    Reg(const char *n, void (*f)(Src &), std::uint64_t q, std::uint64_t t, const char *r, double cpu = 20);
};

void count_check();
[[noreturn]] void fail(const char *file, int line, const std::string &m);
// Is this finding listed in the committed known-findings file?  Marks it as observed.
bool known_finding(const char *id);
bool thorough();

template<class T> std::string str(const T &t) { std::ostringstream os; os << t; return os.str(); }

}    // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// PROP(name, quick cases, thorough cases, rule) { body using Src &S }
#define PROP(NAME, Q, T, RULE)                                                                  \
    static void VF_CAT(prop_, NAME)(vf::Src & S);                                               \
    static vf::Reg VF_CAT(reg_, NAME)(#NAME, VF_CAT(prop_, NAME), Q, T, RULE);                  \
    static void VF_CAT(prop_, NAME)(vf::Src & S)
#define CHECK(C, ...)                                                                           \
    do {                                                                                        \
        vf::count_check();                                                                      \
        if (!(C)) {                                                                             \
            std::ostringstream vf_os;                                                           \
            vf_os << #C << " is false; " << __VA_ARGS__;                                        \
            vf::fail(__FILE__, __LINE__, vf_os.str());                                          \
        }                                                                                       \
    } while (0)
#define DISCARD_UNLESS(C) do { if (!(C)) throw vf::Discard(); } while (0)

#endif
