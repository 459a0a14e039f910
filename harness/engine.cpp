#include "verif.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <ctime>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace vf {

static bool g_thorough = false;
static std::uint64_t g_seed = 1;
static std::set<std::string> g_known;
constexpr std::size_t MAX_HASH = 1u << 20;
constexpr std::size_t SAMPLE = 6000, NSAMPLE = 3;

struct Shared {
    volatile std::uint64_t cases, discarded, nontrivial, checks, cur_case, nhash;
    volatile int failed;    // 1: oracle failure recorded
    volatile std::size_t rec_n;
    char msg[4096];
    char notes[1 << 15];
    char sample[NSAMPLE][SAMPLE];
    char known[16][64];
    volatile int nknown, nsample;
    volatile double slowest;    // CPU seconds of the slowest case
    std::uint64_t rec[MAX_DRAWS];
    std::uint64_t hash[MAX_HASH];
};
static Shared *cur = nullptr;
static volatile int *g_stop = nullptr;    // set once a case has failed: the other workers end
// The limits given with the generators are for the deep tier; no case of the quick one takes more than a few seconds.
static double case_limit(double s) { return g_thorough ? s : std::min(s, s >= 300 ? 90.0 : 25.0); }
static double cpu_now() {
    struct timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

static Shared *new_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); std::exit(2); }
    return (Shared *) p;
}

std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
Reg::Reg(const char *n, void (*f)(Src &), std::uint64_t q, std::uint64_t t, const char *r, double cpu) {
    registry().push_back(Prop {n, f, q, t, r, cpu});
}
bool thorough() { return g_thorough; }

static std::uint64_t mix(std::uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
std::uint64_t Src::next() {
    std::uint64_t a = s0, b = s1;
    s0 = b;
    a ^= a << 23;
    s1 = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s1 + b;
}
std::uint64_t Src::u64(std::uint64_t bound) {
    std::uint64_t v;
    if (replay) {
        v = drawn < replay_n ? replay[drawn] : 0;
        if (v > bound) v = bound == 0 ? 0 : v % (bound + 1);
    } else {
        v = next();
        if (bound != ~0ull) {
            // unbiased enough: 128-bit multiply
            v = (std::uint64_t) (((unsigned __int128) v * ((unsigned __int128) bound + 1)) >> 64);
        }
    }
    if (drawn >= MAX_DRAWS) throw Discard();
    rec[drawn] = v;
    ++drawn;
    *rec_n = drawn;
    return v;
}
std::int64_t Src::range(std::int64_t lo, std::int64_t hi) {
    return (std::int64_t) ((std::uint64_t) lo + u64((std::uint64_t) hi - (std::uint64_t) lo));
}
std::int64_t Src::integer(std::int64_t max) {
    std::uint64_t k = u64(9);
    std::int64_t m;
    if (k < 4) m = (std::int64_t) u64(std::min<std::int64_t>(max, 3));
    else if (k < 7) m = (std::int64_t) u64(std::min<std::int64_t>(max, 20));
    else if (k < 9) m = (std::int64_t) u64((std::uint64_t) max);
    else m = max - (std::int64_t) u64(std::min<std::int64_t>(max, 2));
    return u64(1) ? -m : m;
}

void Src::publish() { std::snprintf(cur->notes, sizeof cur->notes, "%s", notes.c_str()); }

void count_check() { if (cur) cur->checks = cur->checks + 1; }
void fail(const char *file, int line, const std::string &m) {
    const char *b = std::strrchr(file, '/');
    std::ostringstream os;
    os << (b ? b + 1 : file) << ":" << line << ": " << m;
    throw Fail {os.str()};
}
bool known_finding(const char *id) {
    if (!g_known.count(id)) return false;
    for (int i = 0; i < cur->nknown; ++i) if (!std::strcmp(cur->known[i], id)) return true;
    if (cur->nknown < 16) { std::snprintf(cur->known[cur->nknown], 64, "%s", id); cur->nknown = cur->nknown + 1; }
    return true;
}

enum Result { PASS, DISC, FAILED };

static void arm(double cpu) {
    struct itimerval it;
    std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (time_t) cpu;
    it.it_value.tv_usec = (suseconds_t) ((cpu - (double) (time_t) cpu) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static Result run_case(const Prop &p, Src &S) {
    try {
        p.fn(S);
        return PASS;
    } catch (const Discard &) {
        return DISC;
    } catch (const Fail &f) {
        std::snprintf(cur->msg, sizeof cur->msg, "%s", f.msg.c_str());
    } catch (const std::exception &e) {
        std::snprintf(cur->msg, sizeof cur->msg, "unexpected exception: %s", e.what());
    } catch (const char *e) {
        std::snprintf(cur->msg, sizeof cur->msg, "unexpected exception: %s", e);
    } catch (...) {
        std::snprintf(cur->msg, sizeof cur->msg, "unexpected exception");
    }
    std::snprintf(cur->notes, sizeof cur->notes, "%s", S.notes.c_str());
    return FAILED;
}

static void attach(Src &S) {
    S.rec = cur->rec;
    S.rec_n = &cur->rec_n;
    S.drawn = 0;
    cur->rec_n = 0;
}

static std::uint64_t hash_name(const char *s) {
    std::uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char) *s) * 1099511628211ull;
    return h;
}

// child: run cases first, first+step, ... of a property
[[noreturn]] static void worker(const Prop &p, Shared *sh, std::uint64_t first, std::uint64_t step, std::uint64_t total,
                                double wall) {
    cur = sh;
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_set<std::uint64_t> seen;
    for (std::uint64_t i = first; i < total; i += step) {
        if (*g_stop || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > wall) break;
        Src S;
        std::uint64_t b = mix(mix(g_seed * 0x2545F4914F6CDD1Dull + hash_name(p.name)) ^ mix(i));
        S.s0 = b | 1;
        S.s1 = mix(b);
        attach(S);
        cur->cur_case = i;
        arm(case_limit(p.case_cpu_s));
        const double c0 = cpu_now();
        Result r = run_case(p, S);
        cur->slowest = std::max((double) cur->slowest, cpu_now() - c0);
        if (r == FAILED) {
            cur->cases = cur->cases + 1;
            cur->failed = 1;
            _exit(77);
        }
        if (r == DISC) { cur->discarded = cur->discarded + 1; continue; }
        cur->cases = cur->cases + 1;
        if (S.is_nontrivial) {
            std::uint64_t h = 0xcbf29ce484222325ull;
            for (std::size_t k = 0; k < S.drawn; ++k) h = mix(h ^ cur->rec[k]);
            if (cur->nhash < MAX_HASH && seen.insert(h).second) { cur->hash[cur->nhash] = h; cur->nhash = cur->nhash + 1; }
            cur->nontrivial = cur->nontrivial + 1;
            if (cur->nsample < (int) NSAMPLE && (cur->nontrivial == 1 || cur->nontrivial == 7 || cur->nontrivial == 23)) {
                std::vector<std::uint64_t> c(cur->rec, cur->rec + S.drawn);
                Src R;
                R.replay = c.data();
                R.replay_n = c.size();
                R.verbose = true;
                attach(R);
                run_case(p, R);
                std::snprintf(cur->sample[cur->nsample], SAMPLE, "%s: %s", p.name, R.notes.c_str());
                cur->nsample = cur->nsample + 1;
            }
        }
    }
    arm(0);
    _exit(0);
}

struct Outcome { bool fail; std::string msg, notes; std::vector<std::uint64_t> choices; };

static std::string status_text(int st, const Prop &p) {
    std::ostringstream os;
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGVTALRM) os << "no result within " << case_limit(p.case_cpu_s) << " s of CPU time (does not terminate)";
        else os << "terminated by signal " << s << " (" << strsignal(s) << ")";
    } else os << "process ended with status " << WEXITSTATUS(st) << " (sanitizer report or abort)";
    return os.str();
}

// run one recorded case in a child
// a case that swallows memory without bound is a failure of that case
static void limit_memory() {
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
    rlimit l;
    l.rlim_cur = l.rlim_max = rlim_t(3) << 30;
    setrlimit(RLIMIT_AS, &l);
#endif
}

static Outcome run_child(const Prop &p, const std::vector<std::uint64_t> &choices, bool verbose, bool quiet = true) {
    static Shared *sh = new_shared();
    sh->rec_n = 0;
    sh->msg[0] = sh->notes[0] = 0;
    fflush(nullptr);
    static FILE *log = tmpfile();
    if (log && quiet) { rewind(log); if (ftruncate(fileno(log), 0)) { } }
    pid_t pid = fork();
    if (pid == 0) {
        limit_memory();
        cur = sh;
        if (quiet && log) dup2(fileno(log), 2);
        Src S;
        S.replay = choices.data();
        S.replay_n = choices.size();
        S.verbose = verbose;
        attach(S);
        arm(case_limit(p.case_cpu_s));
        Result r = run_case(p, S);
        arm(0);
        if (verbose) std::snprintf(cur->notes, sizeof cur->notes, "%s", S.notes.c_str());
        _exit(r == FAILED ? 77 : 0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    Outcome o;
    o.fail = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    o.choices.assign(sh->rec, sh->rec + sh->rec_n);
    if (o.fail) o.msg = (WIFEXITED(st) && WEXITSTATUS(st) == 77) ? std::string(sh->msg) : status_text(st, p);
    if (o.fail && quiet && log && !(WIFEXITED(st) && WEXITSTATUS(st) == 77)) {
        char line[1024];
        rewind(log);
        for (int k = 0, kept = 0; k < 200 && kept < 2 && fgets(line, sizeof line, log); ++k)
            if (std::strstr(line, "error") || std::strstr(line, "ERROR") || std::strstr(line, "ssert")) {
                o.msg += std::string("; ") + line;
                while (!o.msg.empty() && o.msg.back() == '\n') o.msg.pop_back();
                ++kept;
            }
    }
    o.notes = sh->notes;
    return o;
}

static bool simpler(const std::vector<std::uint64_t> &a, const std::vector<std::uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static std::vector<std::uint64_t> shrink(const Prop &p, std::vector<std::uint64_t> best, double wall) {
    auto t0 = std::chrono::steady_clock::now();
    auto out_of_time = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > wall; };
    auto attempt = [&](const std::vector<std::uint64_t> &c) {
        if (out_of_time()) return false;
        Outcome o = run_child(p, c, false);
        if (o.fail && simpler(o.choices, best)) { best = o.choices; return true; }
        return false;
    };
    bool progress = true;
    while (progress && !out_of_time()) {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (std::size_t i = 0; i + len <= best.size() && !out_of_time();) {
                auto c = best;
                c.erase(c.begin() + (long) i, c.begin() + (long) (i + len));
                if (attempt(c)) progress = true; else i += len;
            }
            for (std::size_t i = 0; i + len <= best.size() && !out_of_time(); i += len) {
                auto c = best;
                bool z = true;
                for (std::size_t k = i; k < i + len; ++k) { if (c[k]) z = false; c[k] = 0; }
                if (!z && attempt(c)) progress = true;
            }
        }
        for (std::size_t i = 0; i < best.size() && !out_of_time(); ++i) {
            std::uint64_t lo = 0;
            while (i < best.size() && best[i] > lo && !out_of_time()) {    // binary search downwards
                auto c = best;
                c[i] = lo + (best[i] - lo) / 2;
                std::uint64_t tried = c[i];
                if (attempt(c)) progress = true; else lo = tried + 1;
            }
        }
    }
    return best;
}

static std::string json(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

}    // namespace vf

using namespace vf;

int main(int argc, char **argv) {
    std::string out, only, choices_file;
    int jobs = 1;
    double wall = 400;
    double scale = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { if (i + 1 >= argc) std::exit(2); return std::string(argv[++i]); };
        if (a == "--seed") g_seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--out") out = val();
        else if (a == "--prop") only = val();
        else if (a == "--choices") choices_file = val();
        else if (a == "--jobs") jobs = std::atoi(val().c_str());
        else if (a == "--wall") wall = std::atof(val().c_str());
        else if (a == "--scale") scale = std::atof(val().c_str());
        else if (a == "--known") g_known.insert(val());
        else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    auto &props = registry();
    if (!choices_file.empty()) {
        for (auto &p : props)
            if (only == p.name) {
                std::ifstream f(choices_file);
                std::vector<std::uint64_t> c;
                std::uint64_t v;
                while (f >> v) c.push_back(v);
                Outcome o = run_child(p, c, true, false);
                std::printf("property %s on the recorded case: %s\n  case: %s\n  %s\n", p.name,
                            o.fail ? "FAILS" : "holds", o.notes.c_str(), o.msg.c_str());
                return o.fail ? 1 : 0;
            }
        return 2;
    }
    // jobs: (property, shard)
    struct Job { std::size_t prop; std::uint64_t first, step; Shared *sh; pid_t pid; int st; bool started, done; };
    std::vector<Job> jobv;
    for (std::size_t k = 0; k < props.size(); ++k) {
        if (!only.empty() && only != props[k].name) continue;
        std::uint64_t n = std::max(1, jobs);
        const std::uint64_t cases = g_thorough ? props[k].thorough : props[k].quick, most = std::max<std::uint64_t>(1, (std::uint64_t) ((double) cases * scale));
        if (cases == 0) continue;    // of the other tier only
        for (std::uint64_t s = 0; s < n && s < most; ++s) jobv.push_back(Job {k, s, n, nullptr, 0, 0, false, false});
    }
    std::size_t nextjob = 0;
    g_stop = (volatile int *) mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_stop == MAP_FAILED) { perror("mmap"); return 2; }
    int running = 0;
    auto t0 = std::chrono::steady_clock::now();
    while (true) {
        while (!*g_stop && running < std::max(1, jobs) && nextjob < jobv.size()) {
            Job &j = jobv[nextjob++];
            const Prop &p = props[j.prop];
            std::uint64_t total = (std::uint64_t) ((double) (g_thorough ? p.thorough : p.quick) * scale);
            if (total < 1) total = 1;
            double left = wall - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            j.sh = new_shared();
            j.started = true;
            fflush(nullptr);
            j.pid = fork();
            if (j.pid == 0) limit_memory(), worker(p, j.sh, j.first, j.step, total, std::max(left, 1.0));
            ++running;
        }
        if (running == 0) break;
        int st;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) { if (errno == EINTR) continue; break; }
        for (auto &j : jobv)
            if (j.started && !j.done && j.pid == pid) { j.done = true; j.st = st; --running; if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) *g_stop = 1; }
    }
    std::ostringstream js;
    js << "[";
    bool anyfail = false, flaky = false;
    auto t1 = std::chrono::steady_clock::now();
    auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count(); };
    bool firstp = true;
    for (std::size_t k = 0; k < props.size(); ++k) {
        const Prop &p = props[k];
        std::uint64_t cases = 0, disc = 0, nont = 0, checks = 0;
        std::unordered_set<std::uint64_t> h;
        std::vector<std::string> samples;
        std::set<std::string> known;
        Job *bad = nullptr;
        bool any = false;
        double slowest = 0;
        for (auto &j : jobv) {
            if (j.prop != k || !j.started) continue;
            any = true;
            slowest = std::max(slowest, (double) j.sh->slowest);
            cases += j.sh->cases; disc += j.sh->discarded; nont += j.sh->nontrivial; checks += j.sh->checks;
            for (std::uint64_t q = 0; q < j.sh->nhash; ++q) h.insert(j.sh->hash[q]);
            for (int q = 0; q < j.sh->nsample; ++q) if (samples.size() < NSAMPLE) samples.push_back(j.sh->sample[q]);
            for (int q = 0; q < j.sh->nknown; ++q) known.insert(j.sh->known[q]);
            bool ok = WIFEXITED(j.st) && WEXITSTATUS(j.st) == 0;
            if (!ok && (!bad || j.sh->cur_case < bad->sh->cur_case)) bad = &j;
        }
        if (!any) continue;
        if (!firstp) js << ",\n";
        firstp = false;
        js << "{\"name\":" << json(p.name) << ",\"rule\":" << json(p.rule) << ",\"cases\":" << cases << ",\"discarded\":" << disc
           << ",\"nontrivial\":" << nont << ",\"distinct_nontrivial\":" << h.size() << ",\"checks\":" << checks << ",\"slowest_case_s\":" << slowest << ",\"samples\":[";
        for (std::size_t q = 0; q < samples.size(); ++q) js << (q ? "," : "") << json(samples[q]);
        js << "],\"known\":[";
        { bool f = true; for (auto &x : known) { js << (f ? "" : ",") << json(x); f = false; } }
        js << "]";
        if (bad) {
            std::vector<std::uint64_t> c(bad->sh->rec, bad->sh->rec + bad->sh->rec_n);
            std::string first_msg = bad->sh->failed ? std::string(bad->sh->msg) : status_text(bad->st, p);
            int again = 0;
            bool timed_out = !bad->sh->failed && WIFSIGNALED(bad->st) && WTERMSIG(bad->st) == SIGVTALRM;
            // a case that does not end is replayed twice (each replay takes the whole limit), any other three times
            int replays = timed_out ? 2 : 3;
            if (anyfail && spent() > 60) { js << "}"; continue; }    // one failure with its reproduction is enough
            for (int q = 0; q < replays; ++q) {
                const double before = spent();
                again += run_child(p, c, false).fail;
                if (q == 0 && again && spent() - before > 6 && !timed_out) replays = 1;    // a case that takes that long runs whole programs; once more is enough
            }
            if (again == replays || (again > 0 && !timed_out)) {
                auto m = shrink(p, c, 45);
                int ok = 0;
                for (int q = 0; q < replays; ++q) ok += run_child(p, m, false).fail;
                if (ok != replays) m = c;
                Outcome o = run_child(p, m, true);
                js << ",\"failure\":{\"message\":" << json(o.msg) << ",\"case\":" << json(o.notes) << ",\"choices\":[";
                for (std::size_t q = 0; q < m.size(); ++q) js << (q ? "," : "") << m[q];
                js << "],\"original_size\":" << c.size() << "}";
                anyfail = true;
                std::fprintf(stderr, "FAIL %s: %s\n  case: %s\n", p.name, o.msg.c_str(), o.notes.c_str());
            } else {
                js << ",\"unconfirmed\":" << json(first_msg);
                flaky = true;
                std::fprintf(stderr, "UNCONFIRMED %s (failed once, replayed %d/%d): %s\n", p.name, again, replays, first_msg.c_str());
            }
        }
        js << "}";
    }
    js << "]\n";
    if (!out.empty()) { std::ofstream f(out); f << js.str(); }
    else std::fputs(js.str().c_str(), stdout);
    return anyfail ? 1 : flaky ? 3 : 0;
}
