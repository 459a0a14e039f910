// C29: operations depend on their arguments only.  Every operation of a unit is registered as a function of indices into
// a fixed stock of arguments and returns its result as text.  The reference for a call is the same call as the first
// thing a fresh process does; a history of calls in one process, and calls on several threads at once, must agree with it.
#ifndef VERIF_PURE_HPP
#define VERIF_PURE_HPP
#include <atomic>
#include <cstdio>
#include <cstring>
#include <map>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "verif.hpp"
#if __has_feature(thread_sanitizer)
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_thread_leaks=0:atexit_sleep_ms=0:symbolize=1"; }
#endif
namespace pure {
typedef std::string (*Fn)(unsigned a, unsigned b, unsigned k);
struct Op { std::string name; Fn fn; };
inline std::vector<Op> &ops() { static std::vector<Op> v; return v; }
inline std::vector<void (*)()> &prepare() { static std::vector<void (*)()> v; return v; }    // builds the stock of arguments
struct RegOp { RegOp(const std::string &n, Fn f) { ops().push_back(Op {n, f}); } };
struct RegPrep { RegPrep(void (*f)()) { prepare().push_back(f); } };
struct Changed { std::string what; };    // thrown by an operation that altered an argument
constexpr unsigned ARGS = 10;

// what an operation leaves in memory it has not set must not matter
__attribute__((noinline, no_sanitize("thread"))) inline void scribble(int v) {
    volatile unsigned char b[24000];
    for (std::size_t i = 0; i < sizeof b; i += 1) b[i] = (unsigned char) v;
}
struct Item {
    unsigned op, a, b, k;
    bool operator<(const Item &o) const { return std::tie(op, a, b, k) < std::tie(o.op, o.a, o.b, o.k); }
};
inline std::string call(const Item &i) {
    try { return ops()[i.op].fn(i.a, i.b, i.k); }
    catch (const Changed &c) { return "changes its argument: " + c.what; }
    catch (const vf::Fail &f) { return "fails: " + f.msg; }
    catch (const vf::Discard &) { return "discards"; }
    catch (const std::exception &e) { return std::string("throws ") + e.what(); }
}
inline std::string show(const Item &i) { return ops()[i.op].name + "(" + std::to_string(i.a) + "," + std::to_string(i.b) + "," + std::to_string(i.k) + ")"; }
struct Outcome { int status; std::string out, err; };
// runs f in a child; its text comes back
template<class F> Outcome child(F f) {
    FILE *o = std::tmpfile(), *e = std::tmpfile();
    if (!o || !e) { std::perror("tmpfile"); _exit(3); }
    pid_t p = fork();
    if (p == 0) {
        itimerval t = {{0, 0}, {240, 0}};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
        dup2(fileno(e), 2);
        std::string s = f();
        std::fwrite(s.data(), 1, s.size(), o);
        std::fflush(o);
        _exit(0);
    }
    Outcome r;
    if (p < 0 || waitpid(p, &r.status, 0) != p) { std::perror("fork"); _exit(3); }
    auto get = [](FILE *f, std::string &s) { std::rewind(f); char b[4096]; std::size_t n; while ((n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n); std::fclose(f); };
    get(o, r.out);
    get(e, r.err);
    return r;
}
inline std::string why(const Outcome &o) {
    std::string s;
    if (WIFSIGNALED(o.status)) s = std::string("ended by signal ") + strsignal(WTERMSIG(o.status));
    else s = "ended with status " + std::to_string(WEXITSTATUS(o.status));
    auto p = o.err.find("WARNING: ThreadSanitizer");
    if (p != std::string::npos) s += ": " + o.err.substr(p, 1500);
    else s += o.err.substr(0, 600);
    return s;
}
inline const std::string &expected(const Item &i) {
    static std::map<Item, std::string> m;
    auto it = m.find(i);
    if (it == m.end()) {
        Outcome o = child([&] { scribble(0); return call(i); });
        CHECK(o.status == 0, show(i) << " " << why(o));
        it = m.emplace(i, o.out).first;
        CHECK(o.out.compare(0, 7, "changes") != 0, show(i) << " " << o.out);
    }
    return it->second;
}
inline void draw(vf::Src &S, std::vector<Item> &l, std::size_t most) {
    static bool ready = [] { for (auto f : prepare()) f(); return true; }();
    (void) ready;
    std::size_t n = 1 + S.u64(most - 1);
    unsigned focus = S.index(ops().size());    // most calls of a history concern few operations and few arguments
    unsigned arg = S.index(ARGS);
    for (std::size_t i = 0; i < n; ++i) {
        Item t;
        t.op = S.one_in(3) ? S.index(ops().size()) : focus;
        t.a = S.one_in(2) ? S.index(ARGS) : arg;
        t.b = S.one_in(2) ? S.index(ARGS) : arg;
        t.k = S.index(ARGS);
        if (i && S.flip()) {    // the call before, with one argument changed
            t = l.back();
            (S.flip() ? t.a : S.flip() ? t.b : t.k) = S.index(ARGS);
        }
        l.push_back(t);
    }
}
inline void history(vf::Src &S) {
    std::vector<Item> l;
    draw(S, l, 14);
    std::string h;
    for (auto &i : l) h += " " + show(i);
    S.note(h);
    S.nontrivial(l.size() > 1);
    for (auto &i : l) expected(i);
    Outcome o = child([&] {
        for (std::size_t n = 0; n < l.size(); ++n) {
            scribble(0xA5 + n);
            std::string r = call(l[n]);
            if (r != expected(l[n])) return show(l[n]) + " gives " + r + " after" + h.substr(0, 1500) + ", and " + expected(l[n]) + " in a fresh process";
        }
        return std::string();
    });
    CHECK(o.status == 0, "the history" << h << " " << why(o));
    CHECK(o.out.empty(), o.out);
}
inline void threads(vf::Src &S) {
    constexpr std::size_t T = 3;
    std::vector<Item> l[T];
    draw(S, l[0], 5);
    for (std::size_t t = 1; t < T; ++t) {
        if (S.flip()) l[t] = l[0];    // the same calls at the same time
        else draw(S, l[t], 5);
    }
    std::string h;
    for (auto &v : l) { h += " ["; for (auto &i : v) { h += " " + show(i); expected(i); } h += " ]"; }
    S.note(h);
    S.nontrivial(true);
    // a race found once is shown again only by chance, so a recorded case is tried several times
    for (int round = S.replay ? 8 : 1; round > 0; --round) {
        Outcome o = child([&] {
            std::string bad[T];
            std::atomic<std::size_t> ready {0};
            std::vector<std::thread> th;
            for (std::size_t t = 0; t < T; ++t)
                th.emplace_back([&, t] {
                    ++ready;
                    while (ready < T) { }
                    for (auto &i : l[t]) { std::string r = call(i); if (r != expected(i) && bad[t].empty()) bad[t] = show(i) + " gives " + r + " beside other threads, and " + expected(i) + " alone"; }
                });
            for (auto &t : th) t.join();
            for (auto &b : bad) if (!b.empty()) return b;
            return std::string();
        });
        CHECK(o.status == 0, "threads" << h << ": " << why(o));
        CHECK(o.out.empty(), o.out << "; threads" << h);
    }
}
#ifndef PURE_Q
#define PURE_Q 1    // quarters of the usual number of cases
#endif
static vf::Reg r1((new std::string(std::string(PURE_NAME) + "_history"))->c_str(), history, 300 * PURE_Q / 4, 20000 * PURE_Q / 4, "at least two calls", 300);
static vf::Reg r2((new std::string(std::string(PURE_NAME) + "_threads"))->c_str(), threads, 150 * PURE_Q / 4, 10000 * PURE_Q / 4, "three threads", 300);
// value of a call; the arguments are copied first and compared afterwards
template<class E> void same(const E &now, const E &before, const char *what) { if (!(now == before)) throw Changed {what}; }
}    // namespace pure
#endif
