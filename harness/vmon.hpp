// vmon: a small framework for runtime-monitoring harnesses.
//
// A harness is a set of sections. A section is a workload that is run for a
// number of seeded cases; while it runs, monitors compare what the real code
// does with an independent oracle and record events, distinct states and
// failures. Every failure carries the property it refutes; only the failures of
// the property under check (--property) count.
#pragma once
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vmon {

using u64 = std::uint64_t;
using i64 = std::int64_t;

inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hash_combine(u64 a, u64 b) { return mix(a * 0x100000001b3ull ^ mix(b)); }
inline u64 hash_string(const std::string &s)
{
    u64 h = 0xcbf29ce484222325ull;
    for(unsigned char c : s) { h = (h ^ c) * 0x100000001b3ull; }
    return mix(h);
}

struct rng {
    u64 s;
    explicit rng(u64 seed = 1) : s(mix(seed)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    // uniform integer in [lo, hi]
    i64 in(i64 lo, i64 hi) { if(hi <= lo) return lo; u64 span = u64(hi) - u64(lo) + 1; return span == 0 ? i64(next()) : i64(u64(lo) + next() % span); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(double p) { return real() < p; }
    double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * real(); }
    template<typename C> auto &pick(C &c) { return c[below(c.size())]; }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template<typename C> void shuffle(C &c) { for(size_t i = c.size(); i > 1; --i) { std::swap(c[i - 1], c[below(i)]); } }
    // skewed magnitudes: small values often, all widths reachable
    u64 magnitude(int maxbits = 63) { int b = int(in(0, maxbits)); u64 v = next(); return b == 0 ? 0 : (v >> (64 - b)); }
};

struct failure { std::string property, key, detail, section; u64 index; };

struct section;
struct state {
    std::string property = "all";
    std::string tier = "quick";
    u64 seed = 1;
    std::string result;
    std::string progress_file;
    std::string only_section;
    i64 only_case = -1;
    double scale = 1;
    unsigned case_timeout = 40;
    std::string scratch = ".";
    std::vector<failure> failures;
    std::set<std::string> known;                 // keys of listed findings: kept once, and no reason to stop early
    u64 unknown_failures = 0;
    std::map<std::string, u64> suppressed;       // failures of other properties
    std::map<std::string, u64> events;
    std::unordered_set<u64> distinct;
    std::atomic<u64> evaluations{0};
    u64 cases = 0;
    std::vector<std::string> samples;
    struct section_cost { u64 cases; double seconds, slowest; };
    std::map<std::string, section_cost> per_section;
    std::vector<std::string> required;
    std::mutex m;
    char *progress = nullptr;
    std::string current_section;
    u64 current_case = 0;
    bool verbose = false, every_section = false;
};
inline state &S() { static state s; return s; }

inline bool active(const std::string &property)
{
    return S().property == "all" || S().property == property;
}
inline bool thorough() { return S().tier == "thorough"; }

// what a case sees
struct ctx {
    rng r;
    std::string sec;
    u64 index;
    std::string trail;       // readable description of the case
    u64 sig = 0;             // signature used to count distinct cases
    bool nontrivial = false;
    size_t failed = 0;

    template<typename... A> void note(A &&...a)
    {
        if(trail.size() > 200000) return;
        std::ostringstream o; (o << ... << a); trail += o.str(); trail += '\n';
    }
    void touch(u64 h) { sig = hash_combine(sig, h); nontrivial = true; }
    void touch(const std::string &h) { touch(hash_string(h)); }
};

inline void event(const std::string &name, u64 n = 1)
{
    std::lock_guard<std::mutex> g(S().m);
    S().events[name] += n;
}
inline void evaluated(u64 n = 1) { S().evaluations += n; }
inline void distinct(u64 h) { std::lock_guard<std::mutex> g(S().m); if(S().distinct.size() < 2000000) S().distinct.insert(h); }

inline std::string tail(const std::string &s, size_t n = 3000)
{
    return s.size() <= n ? s : ("..." + s.substr(s.size() - n));
}

inline void fail(ctx &c, const std::string &property, const std::string &key, const std::string &detail)
{
    std::lock_guard<std::mutex> g(S().m);
    ++c.failed;
    if(!active(property)) { ++S().suppressed[property + ":" + key]; return; }
    size_t same = 0;
    for(auto &f : S().failures) { same += (f.key == key && f.property == property); }
    if(S().verbose || same < 1) {
        std::cout << "VMON-FAIL property=" << property << " key=" << key << " section=" << c.sec << " case=" << c.index
                  << " :: " << detail << std::endl;
    }
    bool listed = S().known.count(key) > 0;
    if(!listed && same < 3) ++S().unknown_failures;
    if(same < (listed ? 1u : 3u)) S().failures.push_back({property, key, detail + "\n--- case ---\n" + tail(c.trail), c.sec, c.index});
}

// check an observation against the oracle; counts as one evaluation
template<typename P, typename K, typename... A> inline bool check(ctx &c, const P &property, bool ok, const K &key, A &&...a)
{
    S().evaluations.fetch_add(1, std::memory_order_relaxed);
    if(__builtin_expect(!ok, 0)) { std::ostringstream o; (o << ... << a); fail(c, property, key, o.str()); }
    return ok;
}
// same, for several properties that the observation refutes
template<typename K, typename... A>
inline bool check(ctx &c, std::initializer_list<const char *> properties, bool ok, const K &key, A &&...a)
{
    S().evaluations.fetch_add(1, std::memory_order_relaxed);
    if(__builtin_expect(!ok, 0)) { std::ostringstream o; (o << ... << a); for(auto p : properties) fail(c, p, key, o.str()); }
    return ok;
}

inline std::string type_name(const std::type_info &t)
{
    int st = 0; char *d = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
    std::string r = (st == 0 && d) ? d : t.name(); std::free(d); return r;
}
// run f; true if it threw an exception derived from std::exception
template<typename F> bool throws(F &&f)
{
    try { f(); } catch(const std::exception &) { return true; }
    return false;
}
template<typename E, typename F> bool throws_as(F &&f)
{
    try { f(); } catch(const E &) { return true; } catch(...) { return false; }
    return false;
}

struct section {
    std::string name;
    std::vector<std::string> properties;
    u64 quick, deep;
    std::function<void(ctx &)> run;
};
inline std::vector<section> &sections() { static std::vector<section> s; return s; }
struct registrar {
    registrar(std::string n, std::vector<std::string> p, u64 q, u64 d, std::function<void(ctx &)> f)
    { sections().push_back({std::move(n), std::move(p), q, d, std::move(f)}); }
};
#define VMON_CAT2(a, b) a##b
#define VMON_CAT(a, b) VMON_CAT2(a, b)
// SECTION(name, ({"C01","C02"}), quick cases, thorough cases) { body using c }
#define SECTION(NAME, PROPS, QUICK, DEEP)                                                                          \
    static void VMON_CAT(section_, NAME)(vmon::ctx & c);                                                           \
    static vmon::registrar VMON_CAT(registrar_, NAME)(#NAME, std::vector<std::string> PROPS, QUICK, DEEP,          \
                                                      VMON_CAT(section_, NAME));                                   \
    static void VMON_CAT(section_, NAME)([[maybe_unused]] vmon::ctx & c)

// a counter that must be non-zero at the end when checking this property
inline void require(const std::string &property, const std::string &event)
{
    if(active(property)) S().required.push_back(event);
}
struct requirement { requirement(const char *p, const char *e) { list().push_back({p, e}); }
    static std::vector<std::pair<std::string,std::string>> &list() { static std::vector<std::pair<std::string,std::string>> l; return l; } };
#define REQUIRE_EVENT(PROP, EVENT) static vmon::requirement VMON_CAT(req_, __COUNTER__)(PROP, EVENT)

inline std::string json(const std::string &s)
{
    std::string o = "\"";
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if(ch == '\n') o += "\\n";
        else if(ch < 0x20 || ch > 0x7e) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o + "\"";
}

inline void write_result(bool complete)
{
    auto &s = S();
    if(s.result.empty()) return;
    std::ofstream f(s.result);
    f << "{\"complete\":" << (complete ? "true" : "false") << ",\"cases\":" << s.cases << ",\"evaluations\":" << s.evaluations.load()
      << ",\"distinct\":" << s.distinct.size() << ",\"events\":{";
    bool first = true;
    for(auto &[k, v] : s.events) { f << (first ? "" : ",") << json(k) << ":" << v; first = false; }
    f << "},\"sections\":{"; first = true;
    for(auto &[k, v] : s.per_section) { f << (first ? "" : ",") << json(k) << ":[" << v.cases << "," << v.seconds << "," << v.slowest << "]"; first = false; }
    f << "},\"suppressed\":{"; first = true;
    for(auto &[k, v] : s.suppressed) { f << (first ? "" : ",") << json(k) << ":" << v; first = false; }
    f << "},\"samples\":["; first = true;
    for(auto &v : s.samples) { f << (first ? "" : ",") << json(v); first = false; }
    f << "],\"failures\":["; first = true;
    for(auto &v : s.failures) {
        f << (first ? "" : ",") << "{\"property\":" << json(v.property) << ",\"key\":" << json(v.key) << ",\"detail\":" << json(v.detail)
          << ",\"section\":" << json(v.section) << ",\"case\":" << v.index << "}";
        first = false;
    }
    f << "],\"missing\":["; first = true;
    if(complete) for(auto &e : s.required) { if(!s.events.count(e) || !s.events[e]) { f << (first ? "" : ",") << json(e); first = false; } }
    f << "]}\n";
}

inline void on_alarm(int)
{
    static const char m[] = "\nVMON-HANG: the case exceeded its time limit\n";
    ssize_t n = write(2, m, sizeof m - 1); (void)n;
    _exit(97);
}

inline int run(int argc, char **argv)
{
    auto &s = S();
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--property") s.property = val();
        else if(a == "--tier") s.tier = val();
        else if(a == "--seed") s.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if(a == "--result") s.result = val();
        else if(a == "--progress") s.progress_file = val();
        else if(a == "--section") s.only_section = val();
        else if(a == "--case") s.only_case = std::strtoll(val().c_str(), nullptr, 10);
        else if(a == "--scale") s.scale = std::atof(val().c_str());
        else if(a == "--timeout") s.case_timeout = std::atoi(val().c_str());
        else if(a == "--scratch") s.scratch = val();
        else if(a == "--known") s.known.insert(val());
        else if(a == "--every-section") s.every_section = true;
        else if(a == "--verbose") s.verbose = true;
        else if(a == "--list") { for(auto &x : sections()) { std::cout << x.name; for(auto &p : x.properties) std::cout << ' ' << p; std::cout << '\n'; } return 0; }
        else { std::cerr << "unknown argument " << a << '\n'; return 2; }
    }
    if(!s.progress_file.empty()) {
        int fd = open(s.progress_file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd >= 0 && ftruncate(fd, 4096) == 0) {
            void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if(p != MAP_FAILED) s.progress = static_cast<char *>(p);
        }
        if(fd >= 0) close(fd);
    }
    signal(SIGALRM, on_alarm);
    for(auto &[p, e] : requirement::list()) require(p, e);
    size_t ran = 0;
    for(auto &sec : sections()) {
        bool wanted = s.property == "all";
        for(auto &p : sec.properties) wanted |= (p == s.property);
        wanted |= s.every_section;
        if(!s.only_section.empty()) wanted = (sec.name == s.only_section);
        if(!wanted) continue;
        ++ran;
        u64 n = thorough() ? sec.deep : sec.quick;
        n = u64(n * s.scale); if(n < 1) n = 1;
        u64 from = 0;
        if(s.only_case >= 0) { from = u64(s.only_case); n = from + 1; }
        auto t0 = std::chrono::steady_clock::now(); double slowest = 0;
        auto since = [](auto t) { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); };
        for(u64 k = from; k < n; ++k) {
            ctx c; c.sec = sec.name; c.index = k;
            c.r = rng(hash_combine(hash_combine(s.seed, hash_string(sec.name)), k));
            s.current_section = sec.name; s.current_case = k;
            if(s.progress) std::snprintf(s.progress, 4096, "%s %llu", sec.name.c_str(), (unsigned long long)k);
            auto t1 = std::chrono::steady_clock::now();
            alarm(s.case_timeout);
            try { sec.run(c); }
            catch(const std::exception &e) {
                // what any workload of the library is run for is only how it ends
                if(!s.every_section) fail(c, s.property == "all" ? sec.properties.front() : s.property,
                     "unexpected-exception:" + sec.name + ":" + type_name(typeid(e)), std::string("unexpected exception ") + type_name(typeid(e)) + ": " + e.what());
            }
            alarm(0);
            slowest = std::max(slowest, since(t1));
            ++s.cases;
            if(c.nontrivial) distinct(hash_combine(hash_string(sec.name), c.sig));
            if(k < from + 1 && s.samples.size() < 12 && !c.trail.empty()) s.samples.push_back(sec.name + "#" + std::to_string(k) + ": " + c.trail.substr(0, 700));
            if(s.verbose && s.only_case >= 0) std::cout << c.trail << std::endl;
            if(s.unknown_failures > 40) break;
        }
        s.per_section[sec.name] = {n - from, since(t0), slowest};
        if(s.unknown_failures > 40) break;
    }
    if(ran == 0) { std::cerr << "no section for property " << s.property << '\n'; return 2; }
    if(s.progress) std::snprintf(s.progress, 4096, "(exit) 0");
    write_result(true);
    return s.failures.empty() ? 0 : 1;
}

} // namespace vmon

#define VMON_MAIN int main(int argc, char **argv) { return vmon::run(argc, argv); }
