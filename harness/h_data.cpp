// Outputs, text forms, delimiter separated values and logs (C30).
#include "vmon.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <boost/container/flat_map.hpp>
#include <esl/data/file.hpp>
#include <esl/data/format/delimiter_separated_values.hpp>
#include <esl/data/log.hpp>
#include <esl/data/output.hpp>
#include <esl/data/producer.hpp>
#include <esl/data/representation.hpp>

using namespace esl;
using vmon::u64;
using vmon::i64;

namespace {
template<typename T> std::string print(const T &t) { std::ostringstream o; o << t; return o.str(); }
std::string word(vmon::rng &r, size_t most = 12) { std::string s; for(u64 n = r.below(most); n > 0; --n) s += r.chance(.2) ? r.pick({',', '[', ']', '{', '}', ' ', ':', '"', '\\', '\n'}) : char('a' + r.below(26)); return s; }
size_t length(vmon::rng &r) { return size_t(r.chance(.15) ? 0 : r.chance(.2) ? 1 : r.chance(.1) ? r.below(2000) : r.below(12)); }
std::string join(const std::vector<std::string> &v, const std::string &by, const std::string &open, const std::string &close)
{
    std::string s = open; for(size_t i = 0; i < v.size(); ++i) s += (i ? by : "") + v[i]; return s + close;
}
// elements of different kinds, with their expected text
template<typename T> struct make;
template<> struct make<int> { static std::pair<int, std::string> one(vmon::rng &r) { int v = int(r.next()) >> r.below(31); return {v, std::to_string(v)}; } };
template<> struct make<u64> { static std::pair<u64, std::string> one(vmon::rng &r) { u64 v = r.magnitude(64); return {v, std::to_string(v)}; } };
template<> struct make<char> { static std::pair<char, std::string> one(vmon::rng &r) { char v = char(r.in(33, 126)); return {v, std::string(1, v)}; } };
template<> struct make<double> { static std::pair<double, std::string> one(vmon::rng &r) { double v = double(r.in(-4000, 4000)) / 4; char b[40]; std::snprintf(b, sizeof b, "%g", v); return {v, b}; } };
template<> struct make<std::string> { static std::pair<std::string, std::string> one(vmon::rng &r) { auto v = word(r); return {v, v}; } };
template<typename E> struct make<std::vector<E>> { static std::pair<std::vector<E>, std::string> one(vmon::rng &r) { std::vector<E> v; std::vector<std::string> t; for(u64 n = r.below(5); n > 0; --n) { auto [a, b] = make<E>::one(r); v.push_back(a); t.push_back(b); } return {v, join(t, ", ", "[", "]")}; } };
template<typename A, typename B> struct make<std::tuple<A, B>> { static std::pair<std::tuple<A, B>, std::string> one(vmon::rng &r) { auto [a, s] = make<A>::one(r); auto [b, t] = make<B>::one(r); return {{a, b}, "(" + s + ", " + t + ")"}; } };
template<typename A, typename B> struct make<std::map<A, B>> { static std::pair<std::map<A, B>, std::string> one(vmon::rng &r) { std::map<A, B> m; std::map<A, std::string> t; for(u64 n = r.below(4); n > 0; --n) { auto a = make<A>::one(r); auto b = make<B>::one(r); m[a.first] = b.first; t[a.first] = a.second + ": " + b.second; } std::vector<std::string> v; for(auto &[k, x] : t) { (void)k; v.push_back(x); } return {m, join(v, ", ", "{", "}")}; } };

template<typename E> void sequences(vmon::ctx &c)
{
    size_t n = length(c.r); std::vector<E> v; std::vector<std::string> t;
    for(size_t i = 0; i < n; ++i) { auto [a, b] = make<E>::one(c.r); v.push_back(a); t.push_back(b); }
    auto judge = [&](const char *what, const std::string &got, const std::string &want) { vmon::check(c, "C30", got == want, std::string("text-of-") + what, n, " elements: ", got.substr(0, 200), " expected ", want.substr(0, 200)); vmon::event("containers printed"); };
    judge("vector", print(v), join(t, ", ", "[", "]"));
    judge("list", print(std::list<E>(v.begin(), v.end())), join(t, " <-> ", "[", "]"));
    judge("forward-list", print(std::forward_list<E>(v.begin(), v.end())), join(t, " -> ", "[", "]"));
    std::queue<E> q; for(auto &e : v) q.push(e);
    judge("queue", print(q), join(t, ", ", "[", "]"));
    vmon::check(c, "C30", q.size() == n, "queue-consumed", q.size(), " of ", n, " left after printing");
    std::vector<std::pair<E, std::string>> sorted; for(size_t i = 0; i < n; ++i) sorted.push_back({v[i], t[i]});
    std::sort(sorted.begin(), sorted.end()); sorted.erase(std::unique(sorted.begin(), sorted.end(), [](auto &a, auto &b) { return a.first == b.first; }), sorted.end());
    std::vector<std::string> st; for(auto &[a, b] : sorted) { (void)a; st.push_back(b); }
    judge("set", print(std::set<E>(v.begin(), v.end())), join(st, ", ", "{", "}"));
    if(n >= 3) { std::array<E, 3> a{v[0], v[1], v[2]}; judge("array", print(a), join({t[0], t[1], t[2]}, ", ", "[", "]")); std::array<E, 1> b{v[1]}; judge("array", print(b), "[" + t[1] + "]"); }
    judge("array", print(std::array<E, 0>()), "[]");
    c.touch(vmon::hash_string(join(t, ",", "", "")));
    vmon::event("elements printed", n);
}
template<typename K, typename V> void maps(vmon::ctx &c)
{
    size_t n = length(c.r); std::map<K, V> m; boost::container::flat_map<K, V> f; std::unordered_map<K, V> u; std::unordered_set<K> us; std::map<K, std::string> t, keys;
    for(size_t i = 0; i < n; ++i) { auto k = make<K>::one(c.r); auto v = make<V>::one(c.r); m[k.first] = v.first; f[k.first] = v.first; u[k.first] = v.first; us.insert(k.first); t[k.first] = k.second + ": " + v.second; keys[k.first] = k.second; }
    std::vector<std::string> want; for(auto &[k, x] : t) { (void)k; want.push_back(x); }
    auto text = join(want, ", ", "{", "}");
    vmon::check(c, "C30", print(m) == text, "text-of-map", n, " elements: ", print(m).substr(0, 200), " expected ", text.substr(0, 200));
    vmon::check(c, "C30", print(f) == text, "text-of-flat-map", n, " elements: ", print(f).substr(0, 200));
    // any order, the order in which the container is traversed
    want.clear(); for(auto &[k, v] : u) { (void)v; want.push_back(t[k]); } text = join(want, ", ", "{", "}");
    vmon::check(c, "C30", print(u) == text, "text-of-unordered-map", n, " elements: ", print(u).substr(0, 200), " expected ", text.substr(0, 200));
    want.clear(); for(auto &k : us) want.push_back(keys[k]); text = join(want, ", ", "{", "}");
    vmon::check(c, "C30", print(us) == text, "text-of-unordered-set", n, " elements: ", print(us).substr(0, 200), " expected ", text.substr(0, 200));
    vmon::event("containers printed", 4); vmon::event("elements printed", n);
}
}

SECTION(text_forms, ({"C30", "C34"}), 1500, 60000)
{
    switch(c.index % 4) {
    case 0: sequences<int>(c); maps<int, std::string>(c); break;
    case 1: sequences<std::string>(c); maps<std::string, u64>(c); break;
    case 2: sequences<double>(c); sequences<std::vector<int>>(c); maps<u64, std::vector<std::string>>(c); break;
    default: sequences<char>(c); sequences<std::tuple<int, std::string>>(c); maps<char, std::map<int, double>>(c);
    }
    auto a = make<int>::one(c.r); auto b = make<std::string>::one(c.r); auto d = make<double>::one(c.r); auto e = make<std::vector<u64>>::one(c.r); auto f = make<char>::one(c.r);
    vmon::check(c, "C30", print(std::make_tuple(a.first)) == "(" + a.second + ")", "text-of-tuple", "one element");
    vmon::check(c, "C30", print(std::make_tuple(a.first, b.first)) == "(" + a.second + ", " + b.second + ")", "text-of-tuple", "two elements ", print(std::make_tuple(a.first, b.first)));
    vmon::check(c, "C30", print(std::make_tuple(f.first, e.first, a.first, b.first, d.first)) == join({f.second, e.second, a.second, b.second, d.second}, ", ", "(", ")"), "text-of-tuple", "five elements");
    vmon::event("tuples printed", 3);
}

// ---------------------------------------------------------------- outputs
namespace {
template<typename... V> void output_case(vmon::ctx &c, bool buffered)
{
    data::producer p; u64 names = 1 + c.r.below(4);
    struct one { std::shared_ptr<data::output<V...>> out; std::vector<std::tuple<simulation::time_point, V...>> history; std::vector<std::pair<std::shared_ptr<std::ostringstream>, std::string>> sinks; };
    std::map<std::string, one> outs;
    while(outs.size() < names) { auto n = word(c.r, 20); if(outs.count(n)) continue; auto o = p.create_output<V...>(n); o->buffered = buffered; outs[n].out = o; vmon::check(c, "C30", o->name == n && p.outputs.count(n) && p.outputs[n] == o, "output-not-registered", n); }
    vmon::check(c, "C30", p.outputs.size() == names, "output-count", p.outputs.size(), " outputs, expected ", names);
    std::string absent; do { absent = word(c.r, 20); } while(outs.count(absent));
    vmon::check(c, "C30", vmon::throws([&] { p.add_output_stream(absent, std::make_shared<data::stream>(std::cout)); }), "stream-added-to-unknown-output", absent);
    u64 t = c.r.magnitude(60);
    for(u64 steps = c.r.below(60); steps > 0; --steps) {
        auto i = outs.begin(); std::advance(i, c.r.below(outs.size())); auto &o = i->second;
        if(c.r.chance(.12)) {
            auto s = std::make_shared<std::ostringstream>(); o.sinks.push_back({s, ""}); p.add_output_stream(i->first, std::make_shared<data::stream>(*s));
            vmon::event("streams attached"); continue;
        }
        if(c.r.chance(.6)) t += c.r.below(3);
        std::tuple<std::pair<V, std::string>...> made{make<V>::one(c.r)...};
        std::apply([&](auto &...x) {
            o.out->put(t, x.first...); o.history.push_back({t, x.first...});
            if(!buffered) for(auto &k : o.sinks) ((k.second += "(" + std::to_string(t) + ", " + x.second + ")\n"), ...);
        }, made);
        vmon::event("values put"); c.touch(t);
        for(auto &[n, x] : outs) for(auto &k : x.sinks) vmon::check(c, "C30", k.first->str() == k.second, "stream-contents", "output ", n, " wrote ", vmon::tail(k.first->str(), 200), " expected ", vmon::tail(k.second, 200));
    }
    for(auto &[n, x] : outs) vmon::check(c, "C30", x.out->values == x.history, "output-history", "output ", n, " keeps ", x.out->values.size(), " values of ", x.history.size());
}
}
SECTION(outputs_record_values, ({"C30", "C34"}), 900, 40000)
{
    bool buffered = c.r.chance(.2);
    switch(c.index % 4) {
    case 0: output_case<double>(c, buffered); break;
    case 1: output_case<u64, std::string>(c, buffered); break;
    case 2: output_case<int, double, char>(c, buffered); break;
    default: output_case<std::vector<int>>(c, buffered);
    }
    data::output<int> plain; vmon::check(c, "C30", plain.name == "observable_1" && !plain.buffered, "output-defaults", plain.name);
    data::output_base several("several", {std::make_shared<data::stream>(std::cout), std::make_shared<data::stream>(std::cerr)}), single("single", std::make_shared<data::stream>(std::cout));
    vmon::check(c, "C30", several.streams.size() == 2 && single.streams.size() == 1 && several.name == "several" && several.buffered == single.buffered, "output-with-streams", several.streams.size());
}

// a stream into a file holds the text when it is closed
SECTION(file_streams, ({"C30", "C34"}), 60, 1500)
{
    namespace fs = std::filesystem;
    fs::path root = fs::absolute(vmon::S().scratch) / ("files" + std::to_string(c.index)); fs::remove_all(root); fs::create_directories(root);
    fs::path prefix = c.r.chance(.3) ? fs::path() : c.r.chance(.5) ? root / "a" : root / "a" / "b c";
    fs::path name = prefix.empty() ? root / "plain.txt" : fs::path("x" + std::to_string(c.r.below(100)) + ".txt");
    std::string want;
    { data::output<int, std::string> o("o"); auto f = std::make_shared<data::file>(name, prefix); o.streams.push_back(f);
      for(u64 n = c.r.below(40); n > 0; --n) { auto v = make<int>::one(c.r); auto w = make<std::string>::one(c.r); o.put(n, v.first, w.first); want += "(" + std::to_string(n) + ", " + v.second + ")\n(" + std::to_string(n) + ", " + w.second + ")\n"; } }
    std::ifstream in(prefix / name); std::stringstream got; got << in.rdbuf();
    vmon::check(c, "C30", in.good() && got.str() == want, "file-contents", got.str().size(), " bytes, expected ", want.size());
    vmon::check(c, "C30", vmon::throws([&] { data::file f("no/such/directory/here.txt", root); }), "file-not-created-unreported", "a file in a missing directory");
    vmon::event("bytes written to files", want.size()); c.touch(want.size());
    fs::remove_all(root);
}

// ---------------------------------------------------------------- delimiter separated values
namespace {
// rows of fields; an escape takes the next character as it is, quotes protect delimiters and line ends
std::vector<std::vector<std::string>> parse(const std::string &text, char delimiter, char quote, char escape)
{
    std::vector<std::vector<std::string>> rows; std::vector<std::string> row; std::string field; bool quoted = false;
    for(size_t i = 0; i < text.size(); ++i) {
        char x = text[i];
        if(x == escape && i + 1 < text.size()) field += text[++i];
        else if(x == quote) quoted = !quoted;
        else if(x == delimiter && !quoted) { row.push_back(field); field.clear(); }
        else if(x == '\n' && !quoted) { row.push_back(field); field.clear(); rows.push_back(row); row.clear(); }
        else field += x;
    }
    if(!field.empty() || !row.empty()) { row.push_back(field); rows.push_back(row); }
    return rows;
}
std::string field(vmon::rng &r, const std::string &special)
{
    std::string s; int kind = int(r.below(5)); size_t n = r.chance(.1) ? 0 : r.chance(.05) ? r.below(500) : r.below(9);
    for(size_t i = 0; i < n; ++i) s += kind == 0 ? special[r.below(special.size())] : kind == 1 ? (r.chance(.3) ? special[r.below(special.size())] : char(r.in(32, 126))) : kind == 2 ? char(r.in(1, 255)) : char(r.in(32, 126));
    return s;
}
}
SECTION(delimiter_separated_rows, ({"C30", "C34"}), 5000, 250000)
{
    namespace dsv = data::format::delimiter_separated_values;
    // single values, with any three distinct special characters
    std::string marks = ",;\t|:\"'`\\^~%"; c.r.shuffle(marks); char d = ',', q = '"', e = '\\'; if(c.r.chance(.5)) { d = marks[0]; q = marks[1]; e = marks[2]; }
    std::string special{d, q, e, '\n', '\r', ' '};
    std::string all; std::vector<std::string> fields;
    for(u64 n = 1 + c.r.below(6); n > 0; --n) { fields.push_back(field(c.r, special)); all += (all.empty() && fields.size() == 1 ? "" : std::string(1, d)) + dsv::render(fields.back(), d, q, e); c.touch(fields.back()); }
    auto back = parse(all + "\n", d, q, e);
    c.note("rendered: ", all);
    vmon::check(c, "C30", back.size() == 1 && back[0] == fields, "dsv-field", "fields rendered as ", all, " are read back as ", back.size(), " rows");
    // rows of mixed types
    using row_t = std::tuple<std::string, int, std::string, double, std::string>;
    std::vector<row_t> rows; std::vector<std::vector<std::string>> want; special = ",\"\\\n\r ";
    for(u64 n = c.r.below(8); n > 0; --n) {
        auto a = field(c.r, special), b = field(c.r, special), z = field(c.r, special); auto i = make<int>::one(c.r); auto x = make<double>::one(c.r);
        rows.push_back({a, i.first, b, x.first, z}); want.push_back({a, i.second, b, x.second, z});
    }
    std::ostringstream o; dsv::render_records(o, rows); auto got = parse(o.str(), ',', '"', '\\');
    vmon::check(c, "C30", got == want, "dsv-rows", rows.size(), " rows rendered as ", o.str(), " are read back as ", got.size(), " rows");
    auto one = field(c.r, special); auto text = field(c.r, special); std::ostringstream s; dsv::render_row(s, std::make_tuple(one)); dsv::render_row(s, std::make_tuple(7, one)); dsv::render_row(s, std::make_tuple(text.c_str(), u64(3)));
    auto first = parse(s.str(), ',', '"', '\\');
    vmon::check(c, "C30", (first == std::vector<std::vector<std::string>>{{one}, {"7", one}, {std::string(text.c_str()), "3"}}), "dsv-row", "rendered as ", s.str());
    vmon::event("fields rendered", fields.size() + rows.size() * 5 + 5);
}

// ---------------------------------------------------------------- logs
namespace {
template<data::severity S> struct open_log : data::log<S> { using data::log<S>::log; std::string text() const { return this->buffer_.str(); } };
// written in small pieces, with pauses
struct token { int thread, number, size; };
std::ostream &operator<<(std::ostream &s, const token &t)
{
    s << '<' << t.thread << ':' << t.number << ' ';
    for(int i = 0; i < t.size; ++i) { s << char('a' + t.thread); if(i % 7 == 3) std::this_thread::yield(); }
    return s << '>';
}
}
SECTION(logs_by_threads, ({"C30", "C34"}), 60, 3000)
{
    open_log<data::notice> log("log"); int threads = int(c.r.in(1, 8)), each = int(c.r.in(1, 40)); std::vector<std::thread> pool; std::vector<int> sizes(threads);
    for(auto &s : sizes) s = int(c.r.in(0, 60));
    std::atomic<int> ready{0}; bool chained = c.r.chance(.5);
    for(int k = 0; k < threads; ++k) pool.emplace_back([&, k] {
        ++ready; while(ready < threads) {}
        for(int i = 0; i < each; ++i) {
            auto channel = log.get(i % 3 ? data::warning : data::notice);
            channel << token{k, i, sizes[k]}; if(chained) channel << token{k, i + 1000, 3};
            log.get(data::trace) << token{k, 7777, 5};
        }
    });
    for(auto &t : pool) t.join();
    auto text = log.text(); std::map<int, std::vector<int>> order; size_t at = 0; bool torn = false;
    while(at < text.size() && !torn) {
        size_t end = text.find('>', at); if(text[at] != '<' || end == std::string::npos) { torn = true; break; }
        int k = -1, n = -1, used = 0; if(std::sscanf(text.c_str() + at, "<%d:%d %n", &k, &n, &used) < 2 || k < 0 || k >= threads) { torn = true; break; }
        std::string body = text.substr(at + used, end - at - used); size_t size = n >= 1000 ? 3 : size_t(sizes[k]);
        if(body != std::string(size, char('a' + k))) { torn = true; break; }
        order[k].push_back(n); at = end + 1; c.touch(u64(k * 4096 + n));
    }
    vmon::check(c, "C30", !torn, "log-torn", "near ", text.substr(at > 40 ? at - 40 : 0, 120));
    for(int k = 0; k < threads && !torn; ++k) {
        std::vector<int> want; for(int i = 0; i < each; ++i) { want.push_back(i); if(chained) want.push_back(i + 1000); }
        vmon::check(c, "C30", order[k] == want, "log-lost-or-reordered", "thread ", k, " wrote ", want.size(), " values, the log has ", order[k].size());
    }
    vmon::event("log values", u64(threads) * each);
}
SECTION(log_lines, ({"C30", "C34"}), 300, 8000)
{
    // a prefix, values and line ends of one thread, above and below the threshold
    open_log<data::notice> log("log"); std::string want;
    for(u64 n = c.r.below(30); n > 0; --n) {
        auto w = word(c.r); int v = int(c.r.next());
        unsigned line = unsigned(c.r.below(5000)); bool ended = c.r.chance(.5);
        auto write = [&](auto channel, const std::string &prefix, bool shown) {
            if(ended) channel << w << ' ' << v << std::endl; else { channel << w << ' ' << v; channel << data::channel::endl; }
            if(shown) want += prefix + w + ' ' + std::to_string(v) + '\n';
        };
        std::string where = std::string(c.r.chance(.5) ? "/home/x/esl/" : c.r.chance(.5) ? "/other/place/" : ""), file = "module/source.cpp"; if(where != "/home/x/esl/") file = "source.cpp";
        std::string path = where + file, tag = ", " + file + "[" + std::to_string(line) + "]) ";
        switch(c.r.below(6)) {
        case 0: write(log.get<data::trace>("f", path.c_str(), line), "", false); break;
        case 1: write(log.get<data::notice>("f", path.c_str(), line), "(notice" + tag, true); break;
        case 2: write(log.get<data::warning>("f", path.c_str(), line), "(warning" + tag, true); break;
        case 3: write(log.get<data::errorlog>("f", path.c_str(), line), "(error" + tag, true); break;
        case 4: write(log.get<data::warning>(), "(warning) ", true); break;
        default: write(log.get(data::trace), "", false);
        }
        vmon::check(c, "C30", log.text() == want, "log-line", "log ends ", vmon::tail(log.text(), 150), " expected ", vmon::tail(want, 150));
        vmon::event("log lines"); c.touch(w);
    }
}
REQUIRE_EVENT("C30", "values put");
REQUIRE_EVENT("C30", "streams attached");
REQUIRE_EVENT("C30", "fields rendered");
REQUIRE_EVENT("C30", "log values");
REQUIRE_EVENT("C30", "containers printed");
VMON_MAIN
