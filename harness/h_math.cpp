// Intervals (C28), parameter samplers (C29) and numerical helpers (C32).
#include "vmon.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <tuple>
#include <unordered_map>
#include <esl/algorithms.hpp>
#include <esl/interaction/communication.hpp>
#include <esl/mathematics/interval.hpp>
#include <esl/mathematics/zero_truncated_poisson_distribution.hpp>
#include <esl/simulation/identity.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
#include <esl/simulation/parameter/sampler.hpp>
#include <esl/simulation/time.hpp>

using namespace esl;
using vmon::u64;
using vmon::i64;
using i128 = __int128;

namespace {
// ---------------------------------------------------------------- intervals
template<typename T> std::string show(T v) { std::ostringstream o; o << v; return o.str(); }

template<typename T, bool lc, bool rc> void interval_case(vmon::ctx &c, T l, T u, const std::vector<T> &probes)
{
    using I = mathematics::interval<T, lc, rc>;
    I x(l, u);
    constexpr bool real = std::is_floating_point<T>::value;
    auto text = std::string(lc ? "[" : "(") + show(l) + "," + show(u) + (rc ? "]" : ")");
    // number of members: 0, 1 or 2 for more; `a`, `b`: which bounds belong
    auto members = [&](bool a, bool b) -> int {
        if(l > u) return 0;
        if constexpr(real) { if(l < u) return 2; return a && b ? 1 : 0; }
        else { i128 n = i128(u) - (b ? 0 : 1) - (i128(l) + (a ? 0 : 1)) + 1; return n <= 0 ? 0 : n == 1 ? 1 : 2; }
    };
    int n = members(lc, rc), inverted = members(!lc, !rc);
    auto judge = [&](const char *name, bool got, bool want, bool other) {
        std::string key = std::string(name) + "-differs-from-membership";
        // the tests of the repository demand the inverted reading of these cases
        if(got != want && lc == rc && got == other && l <= u && (real ? l == u : i128(u) - i128(l) <= 2))
            key = std::string("inverted-reading/") + (lc ? "closed" : "open") + "-" + (real ? "real" : "integer") + "-width-" + show(int(real ? 0 : int(i128(u) - i128(l)))) + "/" + name;
        vmon::check(c, "C28", got == want, key, name, " of ", text, " as ", typeid(T).name(), " is ", got, " though it contains ", n == 0 ? "no value" : n == 1 ? "one value" : "several values");
    };
    judge("empty", x.empty(), n == 0, inverted == 0);
    judge("singleton", x.singleton(), n == 1, inverted == 1);
    judge("degenerate", x.degenerate(), n <= 1, inverted <= 1);
    vmon::check(c, "C28", I::left_closed() == lc && I::right_closed() == rc && x.lower == l && x.upper == u, "interval-bounds", text);
    for(T v : probes) {
        bool in = (lc ? v >= l : v > l) && (rc ? v <= u : v < u);
        vmon::check(c, "C28", x.contains(v) == in, "contains-differs", text, " contains ", show(v), ": ", x.contains(v), ", expected ", in);
        vmon::event(in ? "values inside" : "values outside");
    }
    vmon::check(c, "C28", x.representation() == text && show(x) == text, "interval-text", x.representation(), " expected ", text);
    vmon::event(n == 0 ? "empty intervals" : n == 1 ? "singleton intervals" : "larger intervals");
    I d; vmon::check(c, "C28", d.lower == T() && d.upper == T(), "interval-default", show(d));
}
template<typename T> void interval_kinds(vmon::ctx &c, T l, T u, const std::vector<T> &p)
{
    interval_case<T, true, true>(c, l, u, p); interval_case<T, true, false>(c, l, u, p);
    interval_case<T, false, true>(c, l, u, p); interval_case<T, false, false>(c, l, u, p);
}
template<typename T> T bound(vmon::rng &r)
{
    using L = std::numeric_limits<T>;
    if constexpr(std::is_floating_point<T>::value) {
        switch(r.below(7)) {
        case 0: return L::lowest(); case 1: return L::max(); case 2: return T(0); case 3: return T(r.in(-5, 5));
        case 4: return L::denorm_min() * T(r.in(-3, 3)); case 5: return T(r.real(-1e9, 1e9)); default: return T(r.real(-1, 1)) * std::pow(T(10), T(r.in(-30, 30)));
        }
    } else {
        switch(r.below(6)) {
        case 0: return T(L::min() + T(r.below(4))); case 1: return T(L::max() - T(r.below(4))); case 2: return T(r.below(7));
        case 3: return T(i64(r.below(7)) - 3); case 4: return T(r.next()); default: return T(r.magnitude(64));
        }
    }
}
template<typename T> T near(vmon::rng &r, T v)
{
    if constexpr(std::is_floating_point<T>::value) { int n = int(r.below(4)); for(int i = 0; i < n; ++i) v = std::nextafter(v, r.chance(.5) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()); return v; }
    else { i128 w = i128(v) + r.in(-3, 3); i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); return T(w < lo ? lo : w > hi ? hi : w); }
}
template<typename T> void interval_type(vmon::ctx &c)
{
    T l = bound<T>(c.r), u = c.r.chance(.6) ? near(c.r, l) : bound<T>(c.r);
    if(c.r.chance(.5)) std::swap(l, u);
    std::vector<T> p{l, u, std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), T(0)};
    for(int i = 0; i < 6; ++i) p.push_back(near(c.r, i % 2 ? l : u));
    for(int i = 0; i < 3; ++i) p.push_back(bound<T>(c.r));
    if constexpr(std::is_floating_point<T>::value) { p.push_back(std::numeric_limits<T>::infinity()); p.push_back(-std::numeric_limits<T>::infinity()); p.push_back(std::numeric_limits<T>::quiet_NaN()); }
    c.note("bounds ", show(l), " ", show(u)); c.touch(vmon::hash_string(show(l) + "," + show(u) + typeid(T).name()));
    interval_kinds<T>(c, l, u, p);
}
}

SECTION(interval_random, ({"C28", "C34"}), 6000, 300000)
{
    interval_type<std::int16_t>(c); interval_type<std::int32_t>(c); interval_type<std::int64_t>(c); interval_type<long long>(c);
    interval_type<std::uint16_t>(c); interval_type<std::uint32_t>(c); interval_type<std::uint64_t>(c);
    interval_type<float>(c); interval_type<double>(c);
}

// every pair of bounds of a window, and membership counted one by one
SECTION(interval_exhaustive, ({"C28", "C34"}), 64, 256)
{
    int span = 9; std::int32_t base = std::int32_t(c.r.pick({i64(0), i64(-4), i64(INT32_MIN), i64(INT32_MAX) - span, i64(std::int32_t(c.r.next())) / 2}));
    c.touch(vmon::hash_string(show(base)));
    std::vector<std::int32_t> all; for(int i = 0; i <= span; ++i) all.push_back(base + i);
    for(auto l : all) for(auto u : all) interval_kinds<std::int32_t>(c, l, u, all);
    std::vector<std::uint64_t> w; for(int i = 0; i <= span; ++i) w.push_back(c.index % 2 ? u64(i) : UINT64_MAX - u64(i));
    for(auto l : w) for(auto u : w) {
        interval_kinds<std::uint64_t>(c, l, u, w);
        simulation::time_interval t(l, u);
        u64 first = UINT64_MAX, count = 0; for(auto v : w) if(t.contains(v)) { ++count; first = std::min(first, v); }
        vmon::check(c, "C28", t.empty() == (count == 0) && t.singleton() == (count == 1), "time-interval-count", show(t), " contains ", count);
        (void)first;
    }
}

// ---------------------------------------------------------------- samplers
namespace {
using P = simulation::parameter::interval<double>;
using PP = std::shared_ptr<P>;
namespace sampler = simulation::parameter::sampler;
std::vector<PP> parameters(vmon::rng &r, size_t n)
{
    std::vector<PP> v;
    for(size_t i = 0; i < n; ++i) {
        double a = r.chance(.3) ? double(r.in(-10, 10)) : r.real(-1, 1) * std::pow(10., double(r.in(-6, 9)));
        double w = r.chance(.3) ? double(r.in(1, 10)) : (std::abs(a) + 1) * std::pow(10., double(r.in(-3, 3))) * (r.real() + .01);
        v.push_back(std::make_shared<P>(a, a + w));
    }
    return v;
}
double tolerance(const P &p) { return 1e-9 * (p.upper - p.lower) + 8 * std::numeric_limits<double>::epsilon() * (std::abs(p.lower) + std::abs(p.upper)); }
// which of `d` evenly spaced values; -1 if none
int which(const P &p, unsigned d, double v)
{
    double t = (v - p.lower) / (p.upper - p.lower) * (d - 1); long k = std::lround(t);
    if(k < 0 || k >= long(d)) return -1;
    double want = k == long(d) - 1 ? p.upper : p.lower + (p.upper - p.lower) * (double(k) / (d - 1));
    return std::abs(v - want) <= tolerance(p) ? int(k) : -1;
}
}

SECTION(grid_sampler, ({"C29", "C34"}), 900, 30000)
{
    size_t n = size_t(c.r.in(1, 8)); auto ps = parameters(c.r, n);
    std::map<PP, unsigned> densities; u64 total = 1;
    for(auto &p : ps) { unsigned d = unsigned(c.r.in(2, c.r.chance(.5) ? 4 : c.r.chance(.1) ? 4000 : 64)); if(total * d > 4000) d = 2; if(total * d > 4000) break; total *= d; densities[p] = d; c.note("range [", p->lower, ", ", p->upper, "] density ", d); c.touch(d); }
    auto s = sampler::grid(densities);
    vmon::check(c, "C29", s.size() == total, "grid-size", s.size(), " points, expected ", total);
    std::set<std::vector<int>> seen;
    for(auto &m : s) {
        std::vector<int> k; bool ok = m.size() == densities.size();
        for(auto &[p, d] : densities) { (void)d; auto i = m.find(p); int w = i == m.end() ? -1 : which(*p, densities[p], i->second); ok = ok && w >= 0; k.push_back(w);
            if(w < 0) { vmon::check(c, "C29", false, "grid-value", "value ", i == m.end() ? NAN : i->second, " is not one of ", densities[p], " even steps from ", p->lower, " to ", p->upper); return; } }
        vmon::check(c, "C29", ok, "grid-point", "a point with ", m.size(), " of ", n, " values");
        vmon::check(c, "C29", seen.insert(k).second, "grid-repeated", "a combination occurs twice");
    }
    vmon::check(c, "C29", seen.size() == total, "grid-coverage", seen.size(), " of ", total, " combinations");
    vmon::event("grid points", s.size());
    if(total <= 64) vmon::check(c, "C29", sampler::grid(densities) == s, "grid-reproducible", "two grids differ");
    // exact values, in another number type, where the steps divide the range
    using F = simulation::parameter::interval<float>;
    std::map<std::shared_ptr<F>, unsigned> fd; auto f = std::make_shared<F>(float(c.r.in(-8, 8)), 0.f); unsigned d = unsigned(c.r.in(2, 12)); f->upper = f->lower + float(d - 1) * float(c.r.in(1, 4)); fd[f] = d;
    auto fs = sampler::grid(fd); std::set<float> fv; for(auto &m : fs) fv.insert(m.at(f));
    float step = (f->upper - f->lower) / float(d - 1); std::set<float> want; for(unsigned i = 0; i < d; ++i) want.insert(f->lower + step * float(i));
    vmon::check(c, "C29", fv == want && fs.size() == d, "grid-exact-values", "float grid of ", d);
}

SECTION(latin_hypercube_sampler, ({"C29", "C34"}), 1500, 60000)
{
    size_t n = size_t(c.r.in(1, 8)); auto ps = parameters(c.r, n); unsigned d = unsigned(c.r.in(2, c.r.chance(.5) ? 6 : c.r.chance(.05) ? 3000 : 64));
    std::vector<std::uint32_t> seed; for(u64 i = c.r.below(5); i > 0; --i) seed.push_back(std::uint32_t(c.r.next()));
    auto draw = [&](unsigned density) { return sampler::latin_hypercube(ps, density, std::seed_seq(seed.begin(), seed.end())); };
    c.note(n, " parameters, ", d, " values"); c.touch(d * 16 + n);
    auto s = draw(d);
    vmon::check(c, "C29", s.size() == d, "latin-size", s.size(), " points, expected ", d);
    std::vector<std::vector<int>> order;
    for(auto &p : ps) {
        std::vector<int> column;
        for(auto &m : s) { auto i = m.find(p); int w = i == m.end() || m.size() != n ? -1 : which(*p, d, i->second); column.push_back(w);
            vmon::check(c, "C29", w >= 0, "latin-value", "a value is not one of ", d, " even steps from ", p->lower, " to ", p->upper); }
        auto sorted = column; std::sort(sorted.begin(), sorted.end()); bool once = true;
        for(size_t i = 0; i < sorted.size(); ++i) once = once && sorted[i] == int(i);
        vmon::check(c, "C29", once, "latin-once", "not every value of a parameter is used exactly once");
        order.push_back(column); for(int k : column) c.touch(u64(k) + 1);
    }
    vmon::event("latin hypercube points", s.size());
    vmon::check(c, "C29", draw(d) == s, "latin-reproducible", "two samples with one seed differ");
    if(d >= 24 && n >= 2) {
        auto other = seed; other.push_back(1); auto t = sampler::latin_hypercube(ps, d, std::seed_seq(other.begin(), other.end()));
        vmon::check(c, "C29", t != s, "latin-seed-ignored", "samples with different seeds agree in ", d, " points");
        vmon::check(c, "C29", order[0] != order[1], "latin-parameters-tied", "two parameters take the same order of ", d, " values");
    }
}

SECTION(improved_hypercube_sampler, ({"C29", "C34"}), 500, 12000)
{
    bool large = c.r.chance(.01), wide = c.r.chance(.03); unsigned dim = unsigned(wide ? c.r.in(9, 40) : c.r.in(1, large ? 3 : 8)), n = unsigned(large ? c.r.in(65, 400) : c.r.chance(.2) ? c.r.in(1, 3) : c.r.in(1, wide ? 10 : c.r.chance(.7) ? 20 : 64)), dup = unsigned(c.r.in(1, large ? 2 : 6));
    std::vector<std::uint32_t> seed; for(u64 i = 1 + c.r.below(5); i > 0; --i) seed.push_back(std::uint32_t(c.r.next()));
    auto draw = [&] { std::seed_seq q(seed.begin(), seed.end()); return sampler::improved_hypercube_sampling(dim, n, q, dup); };
    c.note(dim, " dimensions, ", n, " samples, duplication ", dup);
    auto s = draw();
    vmon::check(c, "C29", s.size() == dim, "improved-dimensions", s.size(), " dimensions, expected ", dim);
    for(auto &column : s) {
        auto sorted = column; std::sort(sorted.begin(), sorted.end()); bool once = sorted.size() == n;
        for(size_t i = 0; i < sorted.size(); ++i) once = once && sorted[i] == i + 1;
        vmon::check(c, "C29", once, "improved-permutation", "a dimension is no permutation of 1..", n);
        for(auto v : column) c.touch(v);
    }
    vmon::event("improved hypercube points", n);
    vmon::check(c, "C29", draw() == s, "improved-reproducible", "two samples with one seed differ");
    if(n >= 24 && dim >= 2) { seed.push_back(3); vmon::check(c, "C29", draw() != s, "improved-seed-ignored", "samples with different seeds agree"); }
}

SECTION(uniform_sampler, ({"C29", "C34"}), 1500, 60000)
{
    size_t n = size_t(c.r.in(1, 8)); auto ps = parameters(c.r, n); unsigned k = unsigned(c.r.in(0, c.r.chance(.05) ? 3000 : 64));
    std::vector<std::uint32_t> seed; for(u64 i = c.r.below(5); i > 0; --i) seed.push_back(std::uint32_t(c.r.next()));
    auto draw = [&] { return sampler::uniform_random(ps, k, std::seed_seq(seed.begin(), seed.end())); };
    auto s = draw();
    vmon::check(c, "C29", s.size() == k, "uniform-size", s.size(), " points, expected ", k);
    std::set<double> values; double mean = 0;
    for(auto &m : s) { vmon::check(c, "C29", m.size() == n, "uniform-point", m.size(), " of ", n, " parameters");
        for(auto &p : ps) { double v = m.at(p); vmon::check(c, "C29", v >= p->lower && v <= p->upper, "uniform-range", v, " outside [", p->lower, ", ", p->upper, "]"); values.insert(v); mean += (v - p->lower) / (p->upper - p->lower); c.touch(vmon::hash_string(show(v))); } }
    vmon::event("uniform points", k);
    vmon::check(c, "C29", draw() == s, "uniform-reproducible", "two samples with one seed differ");
    if(k * n >= 30) {
        mean /= double(k * n);       // mean of k*n uniforms: standard deviation .289/sqrt(kn); nine of them
        vmon::check(c, "C29", std::abs(mean - .5) < 9 * .289 / std::sqrt(double(k * n)), "uniform-mean", "mean position in range ", mean, " of ", k * n);
        seed.push_back(9); vmon::check(c, "C29", draw() != s, "uniform-seed-ignored", "samples with different seeds agree");
    }
}

SECTION(parameter_values, ({"C29", "C34"}), 1500, 60000)
{
    using namespace simulation::parameter;
    u64 sample = c.r.magnitude(64), start = c.r.magnitude(40), end = start + c.r.magnitude(20), verbosity = c.r.below(10); unsigned threads = unsigned(c.r.below(64));
    parametrization p(sample, start, end, verbosity, threads);
    vmon::check(c, "C29", p.get<std::uint64_t>("sample") == sample && p.get<simulation::time_point>("start") == start && p.get<simulation::time_point>("end") == end && p.get<std::uint64_t>("verbosity") == verbosity && p.get<std::uint64_t>("threads") == threads,
        "standard-parameter", "sample ", sample, " start ", start, " end ", end, " verbosity ", verbosity, " threads ", threads, " read as ", p.get<std::uint64_t>("sample"), " ", p.get<std::uint64_t>("threads"));
    parametrization q; vmon::check(c, "C29", q.get<std::uint64_t>("sample") == 0 && q.get<simulation::time_point>("start") == 0 && q.get<simulation::time_point>("end") == 1 && q.get<std::uint64_t>("threads") == 1, "default-parameter", "defaults");
    std::map<std::string, double> doubles; std::map<std::string, i64> ints; std::map<std::string, std::string> texts;
    auto fresh = [&] { std::string s; do { s.clear(); for(u64 i = c.r.below(6); i > 0; --i) s += char(c.r.in(32, 126)); } while(doubles.count(s) || ints.count(s) || texts.count(s) || q.values.count(s)); return s; };
    for(u64 i = c.r.below(12); i > 0; --i) {
        auto name = fresh();
        switch(c.r.below(3)) {
        case 0: doubles[name] = c.r.real(-1e9, 1e9); p.values[name] = std::make_shared<constant<double>>(doubles[name]); break;
        case 1: ints[name] = i64(c.r.next()); p.values[name] = std::make_shared<constant<i64>>(ints[name]); break;
        default: texts[name] = fresh(); p.values[name] = std::make_shared<constant<std::string>>(texts[name]);
        }
        c.touch(name);
    }
    parametrization copy = p;
    for(auto *z : {&p, &copy}) {
        for(auto &[k, v] : doubles) { vmon::check(c, "C29", z->get<double>(k) == v, "parameter-value", k); vmon::check(c, "C29", (vmon::throws_as<std::out_of_range>([&] { (void)z->get<i64>(k); })), "parameter-wrong-type", k); }
        for(auto &[k, v] : ints) { vmon::check(c, "C29", z->get<i64>(k) == v, "parameter-value", k); vmon::check(c, "C29", (vmon::throws_as<std::out_of_range>([&] { (void)z->get<double>(k); })), "parameter-wrong-type", k); }
        for(auto &[k, v] : texts) vmon::check(c, "C29", z->get<std::string>(k) == v, "parameter-value", k);
        auto absent = fresh(); vmon::check(c, "C29", (vmon::throws_as<std::out_of_range>([&] { (void)z->get<double>(absent); })), "parameter-unknown-name", absent);
    }
    vmon::event("named parameters read", doubles.size() + ints.size() + texts.size());
    std::vector<int> cats; for(u64 i = 1 + c.r.below(9); i > 0; --i) cats.push_back(int(c.r.next()));
    categorical<int> k(cats); for(size_t i = 0; i < cats.size(); ++i) vmon::check(c, "C29", k[i] == cats[i], "category", i);
    constant<double> d(c.r.real()); vmon::check(c, "C29", double(d) == d.choice, "constant", d.choice);
    P range(-1, 2); vmon::check(c, "C29", range.contains(-1) && range.contains(2) && !range.contains(2.5), "parameter-range", "closed range");
}

// ---------------------------------------------------------------- helpers
namespace {
template<typename T> void power_case(vmon::ctx &c)
{
    using L = std::numeric_limits<T>;
    T x = T(c.r.below(4) ? c.r.below(12) : c.r.magnitude(c.r.chance(.5) ? 7 : 15)); if(std::is_signed<T>::value && c.r.chance(.3)) x = T(-x);
    i128 v = 1; T p = 0;
    for(;; ++p) {
        T got = nonnegative_integer_power<T>(x, p);
        vmon::check(c, "C32", got == T(v), "integer-power", i64(x), " to the ", i64(p), " is ", i64(got), " in ", typeid(T).name());
        vmon::event("integer powers");
        if(p >= 70) break;
        i128 w = v * i128(x); if(w > i128(L::max()) || w < i128(L::min())) break; v = w;
    }
    c.touch(u64(x) * 131 + sizeof(T));
}
}
SECTION(integer_power, ({"C32", "C34"}), 3000, 200000)
{
    power_case<int>(c); power_case<unsigned>(c); power_case<i64>(c); power_case<u64>(c);
    static_assert(nonnegative_integer_power(2, 10) == 1024);
}

namespace {
template<typename E> E element(vmon::rng &r) { if constexpr(std::is_same<E, std::string>::value) { return std::string(r.below(40), char('a' + r.below(26))); } else return E(r.next()); }
template<typename E, size_t A, size_t B> void arrays(vmon::ctx &c)
{
    std::array<E, A> a; std::array<E, B> b; for(auto &e : a) e = element<E>(c.r); for(auto &e : b) e = element<E>(c.r);
    auto both = array_concatenate(a, b); bool ok = both.size() == A + B;
    for(size_t i = 0; i < A; ++i) ok = ok && both[i] == a[i];
    for(size_t i = 0; i < B; ++i) ok = ok && both[A + i] == b[i];
    vmon::check(c, "C32", ok, "array-concatenate", A, " and ", B, " elements");
    auto first = array_slice<0, A>(both); auto second = array_slice<A, A + B>(both);
    vmon::check(c, "C32", first == a && second == b, "array-slice", A, " and ", B, " elements");
    constexpr size_t M = (A + B) / 3, N = (A + B) - (A + B) / 4;
    auto mid = array_slice<M, N>(both); ok = true; for(size_t i = M; i < N; ++i) ok = ok && mid[i - M] == both[i];
    vmon::check(c, "C32", ok, "array-slice", M, " to ", N);
    std::vector<E> v(both.begin(), both.end()); std::list<E> l(both.begin(), both.end()); v.resize(v.size() + c.r.below(3)); 
    auto tv = to_array<M, N, E>(v), tl = to_array<M, N, E>(l), ta = to_array<M, N, E>(both);
    vmon::check(c, "C32", tv == mid && tl == mid && ta == mid, "to-array", M, " to ", N);
    vmon::event("array elements moved", 4 * (A + B)); c.touch(A * 100 + B);
}
}
SECTION(array_helpers, ({"C32", "C34"}), 3000, 100000)
{
    arrays<int, 3, 4>(c); arrays<char, 1, 1>(c); arrays<u64, 7, 2>(c); arrays<std::string, 2, 5>(c); arrays<int, 0, 3>(c); arrays<double, 3, 0>(c); arrays<int, 64, 64>(c); arrays<std::string, 16, 9>(c);
    // enumeration
    size_t n = c.r.below(65); std::vector<int> v; for(size_t i = 0; i < n; ++i) v.push_back(int(c.r.next()));
    std::vector<std::pair<size_t, int>> got, want; for(size_t i = 0; i < n; ++i) want.push_back({i, v[i]});
    auto judge = [&](const char *what) { vmon::check(c, "C32", got == want, "enumerate", what, " of ", n, " elements: ", got.size(), " pairs"); got.clear(); };
    for(auto [i, e] : enumerate(v)) got.push_back({i, e}); judge("vector");
    const auto &cv = v; for(auto [i, e] : enumerate(cv)) got.push_back({i, e}); judge("const vector");
    for(auto [i, e] : enumerate(std::vector<int>(v))) got.push_back({i, e}); judge("temporary");
    std::list<int> l(v.begin(), v.end()); for(auto [i, e] : enumerate(l)) got.push_back({i, e}); judge("list");
    std::deque<int> d(v.begin(), v.end()); for(auto [i, e] : enumerate(d)) got.push_back({i, e}); judge("deque");
    auto w = v; for(auto [i, e] : enumerate(w)) e = int(i) + 1; bool ok = true; for(size_t i = 0; i < n; ++i) ok = ok && w[i] == int(i) + 1;
    vmon::check(c, "C32", ok, "enumerate-reference", "assignment through the enumeration is lost");
    vmon::event("enumerated elements", 5 * n);
    // rounding
    for(int i = 0; i < 8; ++i) {
        double x = c.r.chance(.3) ? double(c.r.in(-20, 20)) / 4 : c.r.chance(.2) ? double(c.r.in(-5, 5)) : c.r.real(-1, 1) * std::pow(10., double(c.r.in(0, 17)));
        i64 t = rounding::integer_towards_zero(x), a = rounding::integer_away_from_zero(x);
        long double lx = x; i64 down = i64(std::floor(lx)), up = i64(std::ceil(lx));
        vmon::check(c, "C32", t == (x < 0 ? up : down), "round-towards-zero", x, " to ", t);
        vmon::check(c, "C32", a == (x < 0 ? down : up), "round-away-from-zero", x, " to ", a);
        float f = float(c.r.in(-64, 64)) / 8; vmon::check(c, "C32", (rounding::integer_towards_zero<float, int>(f) == int(f) && std::abs(rounding::integer_away_from_zero<float, int>(f)) == int(std::ceil(std::abs(f)))), "round-float", f);
        vmon::event("rounded values", 2);
    }
}

SECTION(means_and_growth, ({"C32", "C34"}), 6000, 300000)
{
    size_t n = size_t(c.r.in(1, c.r.chance(.03) ? 3000 : 64)); double scale = std::pow(10., double(c.r.in(-6, 6)));
    std::vector<double> v; for(size_t i = 0; i < n; ++i) v.push_back(c.r.chance(.1) ? scale : scale * std::pow(10., c.r.real(-3, 3)));
    long double log = 0; for(double x : v) log += std::log((long double)x);
    long double want = std::exp(log / n);
    for(double got : {geometric_mean(v.begin(), v.end()), geometric_mean(v)}) vmon::check(c, "C32", std::abs(got - want) <= 1e-10L * want, "geometric-mean", got, " expected ", double(want), " of ", n);
    std::list<double> l(v.begin(), v.end()); vmon::check(c, "C32", std::abs(geometric_mean(l) - want) <= 1e-10L * want, "geometric-mean", "of a list");
    vmon::check(c, "C32", geometric_mean(v) >= *std::min_element(v.begin(), v.end()) * (1 - 1e-10) && geometric_mean(v) <= *std::max_element(v.begin(), v.end()) * (1 + 1e-10), "geometric-mean-range", n, " elements");
    double got = growth_rate(v.begin(), v.end());
    long double growth = n < 2 ? 0 : std::exp((std::log((long double)v.back()) - std::log((long double)v.front())) / (n - 1)) - 1;
    vmon::check(c, "C32", std::abs(got - growth) <= 1e-10L * (1 + std::abs(growth)), "growth-rate", got, " expected ", double(growth), " of ", n);
    vmon::check(c, "C32", std::abs(growth_rate(l.begin(), l.end()) - got) <= 1e-10 * (1 + std::abs(got)), "growth-rate", "of a list");
    // defining product: first value grown by the rate for every step gives the last one
    if(n >= 2) vmon::check(c, "C32", std::abs(v.front() * std::pow(1 + (long double)got, (long double)(n - 1)) / v.back() - 1) < 1e-7L, "growth-product", n, " elements");
    vmon::event("sequences measured"); c.touch(n * 64 + u64(std::abs(got) * 1e6));
}

SECTION(fraction_allocation, ({"C32", "C34"}), 20000, 1000000)
{
    size_t n = c.r.chance(.03) ? c.r.below(700) : c.r.below(65); std::vector<double> f; int kind = int(c.r.below(5)); double total = 0;
    for(size_t i = 0; i < n; ++i) {
        double x = kind == 0 ? c.r.real(0, 10) : kind == 1 ? double(c.r.below(40)) / 4 : kind == 2 ? double(c.r.below(9)) + .5 : kind == 3 ? double(c.r.below(9)) + .5 + (c.r.chance(.5) ? 1e-9 : -1e-9) : c.r.real(0, 1) * std::pow(10., double(c.r.in(-3, 6)));
        f.push_back(x); total += x;
    }
    // shares of a whole
    if(n > 0 && total > 0 && c.r.chance(.4)) { double whole = double(c.r.below(1000)); for(auto &x : f) x *= whole / total; total = 0; for(auto x : f) total += x; }
    // a total half way between whole numbers may be rounded either way
    if(std::abs(total - std::floor(total) - .5) < 1e-7) { f.push_back(.25); total += .25; ++n; }
    long target = std::lround(total);
    auto r = allocate_fractions(f, int(target));
    vmon::check(c, "C32", r.size() == n, "allocation-size", r.size(), " parts of ", n);
    long sum = 0; bool moved = false;
    for(size_t i = 0; i < n && i < r.size(); ++i) {
        sum += r[i]; moved = moved || r[i] != int(std::round(f[i]));
        vmon::check(c, "C32", r[i] >= 0 && std::abs(r[i] - f[i]) < 1 + 1e-9, "allocation-part", "part ", i, ": ", f[i], " became ", r[i]);
    }
    vmon::check(c, "C32", sum == target, "allocation-sum", "parts sum to ", sum, ", target ", target, " of ", n);
    vmon::event(moved ? "allocations corrected" : "allocations rounded"); c.touch(u64(target) * 70 + n);
}

SECTION(barycentric_weights, ({"C32", "C34"}), 400, 5000)
{
    size_t dims = size_t(c.r.in(1, 5)), div = size_t(c.r.in(1, dims <= 2 ? 40 : dims == 3 ? 16 : 7)); double whole = c.r.chance(.6) ? 1. : double(c.r.in(1, 8)) / 8;
    auto s = c.r.chance(.5) && whole == 1. ? sample_barycentric<double>(dims, div) : sample_barycentric<double>(dims, div, whole);
    c.note(dims, " dimensions, ", div, " divisions, whole ", whole); c.touch(dims * 1000 + div * 10 + u64(whole * 8));
    std::set<std::vector<long>> seen; u64 strict = 0;
    for(auto &w : s) {
        double sum = 0; bool ok = w.size() == dims; std::vector<long> k;
        for(double x : w) { sum += x; ok = ok && x >= 0; }
        vmon::check(c, "C32", ok && std::abs(sum - whole) < 1e-9, "weights", w.size(), " weights sum to ", sum, ", expected ", dims, " non-negative ones and ", whole);
        for(size_t i = 1; i < w.size(); ++i) { long t = std::lround(w[i] * double(div)); k.push_back(t); vmon::check(c, "C32", std::abs(w[i] * double(div) - double(t)) < 1e-6, "weight-off-grid", w[i], " with ", div, " divisions"); }
        vmon::check(c, "C32", seen.insert(k).second, "weights-repeated", "a combination occurs twice");
        long total = 0; for(long t : k) total += t; if(double(total) < whole * double(div) - 1e-6) ++strict;
    }
    // every combination of steps that leaves something over occurs
    u64 want = 0; std::vector<long> k(dims - 1, 0);
    for(;;) {
        long total = std::accumulate(k.begin(), k.end(), 0l); if(double(total) < whole * double(div) - 1e-6) { ++want; if(!seen.count(k)) { vmon::check(c, "C32", false, "weights-missing", "a combination of steps is absent: ", dims, " dimensions, ", div, " divisions"); break; } }
        size_t i = 0; while(i < k.size() && ++k[i] == long(div)) k[i++] = 0;
        if(i == k.size()) break;
    }
    vmon::check(c, "C32", strict == want || c.failed, "weights-count", strict, " combinations, expected ", want);
    vmon::event("weight vectors", s.size());
}

SECTION(truncated_poisson, ({"C32", "C34"}), 400, 8000)
{
    double lambda = c.r.chance(.2) ? c.r.pick({1e-3, .01, 1., 200., 500.}) : std::pow(10., c.r.real(-3, 2.5)); u64 seed = c.r.next(); const int n = 3000;
    c.note("lambda ", lambda); c.touch(u64(lambda * 1e6));
    zero_truncated_poisson_distribution<int> d(lambda), e(lambda); std::mt19937_64 g(seed), h(seed), o(seed + 1);
    double sum = 0; bool differs = false, one = false;
    for(int i = 0; i < n; ++i) { int a = d(g), b = e(h), z = d(o);
        vmon::check(c, "C32", a >= 1, "poisson-support", "variate ", a, " for lambda ", lambda); vmon::check(c, "C32", a == b, "poisson-reproducible", a, " and ", b); sum += a; differs = differs || a != z; one = one || a == 1; }
    double mean = lambda / -std::expm1(-lambda), var = mean * (1 + lambda - mean);
    // at most nine standard errors, with room for a single rare value
    vmon::check(c, "C32", std::abs(sum / n - mean) < 9 * std::sqrt(std::max(0., var) / n) + 4. / n, "poisson-mean", sum / n, " expected ", mean, " for lambda ", lambda);
    if(lambda > 1) vmon::check(c, "C32", differs, "poisson-generator-ignored", "two generators give the same variates");
    double p1 = lambda * std::exp(-lambda) / -std::expm1(-lambda); if(p1 * n > 40) vmon::check(c, "C32", one, "poisson-one", "never one for lambda ", lambda);
    vmon::event("poisson variates", n);
}

SECTION(latencies, ({"C32", "C34"}), 150, 4000)
{
    using namespace interaction::communication;
    double shape = std::pow(10., c.r.real(-.5, 1.5)), rate = std::pow(10., c.r.real(-3, .7)), shift = c.r.chance(.3) ? 0. : double(c.r.chance(.3) ? c.r.in(50, 100000) : c.r.in(0, 50)) + (c.r.chance(.5) ? .5 : 0.); const int n = 600;
    c.note("shape ", shape, " rate ", rate, " shift ", shift); c.touch(vmon::hash_string(show(shape)));
    shifted_gamma_latency model(shape, rate, shift); instant none; latency_model *models[] = {&model, &none};
    identity<agent> a({1, 2}), b({1, 3}); u64 base = c.r.next(); double sum = 0; bool differs = false; u64 first = 0;
    for(int i = 0; i < n; ++i) {
        std::seed_seq q{std::uint32_t(base), std::uint32_t(base >> 32), std::uint32_t(i)}, q2{std::uint32_t(base), std::uint32_t(base >> 32), std::uint32_t(i)};
        auto x = models[0]->sample(a, b, q), y = models[0]->sample(a, b, q2);
        vmon::check(c, "C32", x == y, "latency-reproducible", x, " and ", y);
        vmon::check(c, "C32", double(x) >= std::floor(shift), "latency-support", x, " below the shift ", shift);
        vmon::check(c, "C32", models[1]->sample(a, b, q) == 0, "instant-latency", "not zero");
        sum += double(x); if(i == 0) first = x; differs = differs || x != first;
    }
    double mean = shape / rate + shift, sd = std::sqrt(shape) / rate, error = 10 * sd / std::sqrt(double(n));
    vmon::check(c, "C32", sum / n <= mean + error && sum / n >= mean - 1 - error, "latency-mean", sum / n, " expected ", mean, " for shape ", shape, " rate ", rate);
    if(sd > 5) vmon::check(c, "C32", differs, "latency-seed-ignored", "all latencies equal");
    vmon::event("latencies sampled", 2 * n);
}
REQUIRE_EVENT("C28", "singleton intervals");
REQUIRE_EVENT("C28", "values inside");
REQUIRE_EVENT("C29", "grid points");
REQUIRE_EVENT("C29", "latin hypercube points");
REQUIRE_EVENT("C29", "improved hypercube points");
REQUIRE_EVENT("C29", "uniform points");
REQUIRE_EVENT("C32", "allocations corrected");
REQUIRE_EVENT("C32", "latencies sampled");
REQUIRE_EVENT("C32", "poisson variates");
VMON_MAIN
