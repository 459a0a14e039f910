// C30: headers in generated programs.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include "verif.hpp"
namespace fs = std::filesystem;
struct Scratch {
    std::string dir;
    Scratch() { char t[] = "/tmp/verif_hdr_XXXXXX"; if (!mkdtemp(t)) { std::perror("mkdtemp"); _exit(3); } dir = t; }
    ~Scratch() { std::error_code e; fs::remove_all(dir, e); }
    std::string operator()(const std::string &n) const { return dir + "/" + n; }
};
static void save(const std::string &p, const std::string &s) { std::ofstream(p) << s; }
static std::string load(const std::string &p) { std::ifstream f(p); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static bool run(const Scratch &d, const std::string &cmd, std::string &out, const char *name = "log") {
    std::string log = d(name);
    int r = std::system(("TMPDIR=" + d.dir + " timeout 600 " + cmd + " > " + log + " 2>&1").c_str());
    out = load(log);
    if (r) out += "(status " + std::to_string(r) + ")";
    return WIFEXITED(r) && WEXITSTATUS(r) == 0;
}
static std::string errors(const std::string &log) {
    std::istringstream i(log);
    std::string l, s;
    while (std::getline(i, l)) if (l.find("error") != std::string::npos || l.find("multiple definition") != std::string::npos || l.find("undefined reference") != std::string::npos) { s += l.substr(0, 300) + " | "; if (s.size() > 900) break; }
    return s.empty() ? log.substr(0, 600) : s + log.substr(log.rfind('('));
}
struct Compiler { const char *name, *cmd; };
static const Compiler COMPILERS[] = {{"clang++", "clang++-18 -fconstexpr-steps=1000000000 -fbracket-depth=1024"}, {"g++", "g++ -fconstexpr-ops-limit=10000000000 -fconstexpr-loop-limit=100000000"}};
static std::string flags(const Compiler &c, const char *opt) { return std::string(c.cmd) + " -std=c++17 -w " + opt + " -I" HDR_INCLUDE " -I" HDR_SHIM " "; }
static std::string include(const std::string &h) { return "#include <" + h + ">\n"; }

// one header, as the first and only thing of two files of one program, twice in each
static void alone(vf::Src &S, const Header &h) {
    bool heavy = h.kind == 'm' || h.kind == 't';    // draws in the big numbers
    const Compiler &c = COMPILERS[S.one_in(heavy && !vf::thorough() ? 10 : 4)];
    std::string parsed = heavy && !vf::thorough() && &c == COMPILERS ? "-include-pch " HDR_PCH " " : "";
    std::string more = S.one_in(3) ? "#include <complex>\n#include <vector>\n" : "";    // between the two inclusions
    S.note(h.path, " with ", c.name);
    S.nontrivial(true);
    Scratch d;
    save(d("a.cpp"), include(h.path) + more + include(h.path) + h.after + (*h.use ? "#include <ostream>\ninline void uses(std::ostream &o) {\n" + std::string(h.use) + "\n}\n__attribute__((used)) static auto *kept = &uses;\n" : ""));
    std::string log;
    CHECK(run(d, flags(c, "-O0") + parsed + "-c " + d("a.cpp") + " -o " + d("a.o"), log), "a file that includes only " << h.path << " does not compile with " << c.name << ": " << errors(log));
    // a second file would hold the same definitions: those that may be there once only show when the object is linked with a copy of itself
    fs::copy_file(d("a.o"), d("b.o"));
    CHECK(run(d, "ld -r " + d("a.o") + " " + d("b.o") + " -o " + d("c.o"), log), "two files that include " << h.path << " do not link: " << errors(log));
}
// any headers, in any order, in two files of one program; what the program computes does not depend on it
static const char *NEEDED[] = {"matrix/math.hpp", "matrix/utility.hpp", "matrix/operators.hpp", "vector/math.hpp", "vector/utility.hpp", "vector/operators.hpp", "scalar/math.hpp", "marshalling.hpp", "random_element.hpp", "wnaf.hpp",
    "multiexp/multiexp.hpp", "multiexp/policies.hpp", "algorithms/pair.hpp", "pairing/bls12.hpp", "curves/bls12.hpp", "curves/secp_k1.hpp", "curves/jubjub.hpp", "curves/ed25519.hpp", "curves/params/wnaf/bls12.hpp",
    "curves/params/multiexp/bls12.hpp", "fields/secp/secp_k1/base_field.hpp", "fields/goldilocks64/base_field.hpp", "fields/pallas/scalar_field.hpp", "fields/mnt6/base_field.hpp", "fields/fp3.hpp", "type_traits.hpp"};
template<class T> static void shuffle(vf::Src &S, std::vector<T> &v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - S.index(i)]); }
static void together(vf::Src &S) {
    std::vector<std::string> set;
    const char *opts[] = {"-O0", "-O1", "-O2"};
    for (auto n : NEEDED) set.push_back(std::string("nil/crypto3/algebra/") + n);
    std::string uses, after;
    const std::uint64_t shares[] = {0, 3, 3, 2}, share = shares[S.index(4)];    // thirds of the other headers
    for (auto &h : HEADERS) if (S.u64(3) < share && std::find(set.begin(), set.end(), h.path) == set.end()) { set.push_back(h.path); uses += h.use; uses += '\n'; after += h.after; }
    Scratch d;
    std::string salt = "#define SALT " + std::to_string(1 + S.u64(2000000000)) + "u\n#define SALT2 " + std::to_string(1 + S.u64(2000000000)) + "u\n", log, out[3], how[2], cmd[2];
    const char *std_ = "#include <cstdio>\n#include <random>\n#include <sstream>\n#include <string>\n#include <vector>\n";
    for (int t = 0; t < 2; ++t) {
        auto order = set;
        shuffle(S, order);
        bool first = S.flip();
        std::string s = first ? std_ : "";
        for (auto &h : order) s += include(h);
        if (!first) s += std_;
        s += after;
        s += salt + HDR_DIGEST + "namespace verif { inline void uses(std::ostream &o) {\n" + uses + "} }\n" + std::string("const char *verif_file_") + char('a' + t) + " = \"\";\nextern \"C\" __attribute__((weak)) int main() { std::fputs(verif::digest().c_str(), stdout); std::ostringstream o; verif::uses(o); std::fputs(o.str().c_str(), stdout); return 0; }\n";
        std::string f = d(std::string(1, char('a' + t)));
        save(f + ".cpp", s);
        const Compiler &c = COMPILERS[S.one_in(2)];
        const char *opt = opts[S.index(3)];
        how[t] = std::string(c.name) + " " + opt + ", first headers " + order[0] + ", " + order[1];
        cmd[t] = flags(c, opt) + "-c " + f + ".cpp -o " + f + ".o";
    }
    S.note(set.size(), " headers; ", how[0], "; ", how[1]);
    S.nontrivial(share > 0);
    auto said = [&](const std::string &e) { return " (" + std::to_string(set.size()) + " headers; " + how[0] + "; " + how[1] + "): " + e; };
    std::string logs[2];
    bool ok[2];
    std::thread other([&] { ok[1] = run(d, cmd[1], logs[1], "log2"); });
    ok[0] = run(d, cmd[0], logs[0]);
    other.join();
    for (int t = 0; t < 2; ++t) CHECK(ok[t], "does not compile" << said(errors(logs[t])));
    const std::string objs[] = {d("a.o"), d("b.o"), d("a.o") + " " + d("b.o")};
    for (int t = 0; t < 3; ++t) {
        CHECK(run(d, "clang++-18 " + objs[t] + " -o " + d("p") + " -lboost_random", log), "does not link" << said(errors(log)));
        CHECK(run(d, d("p"), out[t]), "the program fails" << said(out[t].substr(0, 300)));
        if (t && out[t] != out[0]) {
            std::istringstream x(out[0]), y(out[t]);
            std::string l, m;
            while (std::getline(x, l) && std::getline(y, m) && l == m) { }
            CHECK(false, "the results differ" << said("\"" + l.substr(0, 200) + "\" and \"" + m.substr(0, 200) + "\""));
        }
    }
}
template<std::size_t I> static void one(vf::Src &S) { alone(S, HEADERS[I]); }
template<std::size_t... I> static int reg(std::index_sequence<I...>) {
    using vf::Reg;
    Reg *all[] = {new Reg(HEADERS[I].path, one<I>, HEADERS[I].kind == 't' ? 0 : 1, 3, "always", 300)...};
    (void) all;
    return 0;
}
static vf::Reg together_("together", together, 4, 60, "headers beside those the program needs", 300);
static int reg_ = reg(std::make_index_sequence<sizeof HEADERS / sizeof HEADERS[0]>());
