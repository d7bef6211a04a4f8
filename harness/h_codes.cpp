// Security and entity codes (C27).
#include "vmon.hpp"
#include <array>
#include <cassert>
#include <cctype>
#include <esl/economics/finance/cusip.hpp>
#include <esl/economics/finance/isin.hpp>
#include <esl/economics/finance/sedol.hpp>
#include <esl/law/legal_entity.hpp>
#include <esl/simulation/identity.hpp>

using namespace esl;
using economics::finance::cusip;
using economics::finance::sedol;
using economics::finance::isin;
using law::iso_17442;
using vmon::u64;

namespace {
const std::string DIGITS = "0123456789", UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", LOWER = "abcdefghijklmnopqrstuvwxyz", SPECIAL = "*@#";
std::string body(vmon::rng &r, size_t n, const std::string &alphabet)
{
    // all of one kind, mixed, or mostly digits
    std::string a = alphabet; int kind = int(r.below(4));
    if(kind == 0) a = DIGITS; else if(kind == 1 && alphabet.find('A') != std::string::npos) a = UPPER;
    std::string s; for(size_t i = 0; i < n; ++i) s += kind == 2 && r.chance(.7) ? DIGITS[r.below(10)] : a[r.below(a.size())];
    if(r.chance(.03)) s = std::string(n, a[r.below(a.size())]);
    return s;
}
template<size_t N> std::array<char, N> chars(const std::string &s, size_t from = 0) { std::array<char, N> a{}; for(size_t i = 0; i < N; ++i) a[i] = s[from + i]; return a; }
template<typename T> std::string print(const T &t) { std::ostringstream o; o << t; return o.str(); }
int ordinal(char c)
{
    size_t i;
    if((i = DIGITS.find(c)) != std::string::npos) return int(i);
    if((i = UPPER.find(c)) != std::string::npos) return 10 + int(i);
    if((i = LOWER.find(c)) != std::string::npos) return 10 + int(i);
    return 36 + int(SPECIAL.find(c));
}
// the standards' check digits, computed on decimal text
char cusip_digit(const std::string &s) { int sum = 0; for(size_t i = 0; i < 8; ++i) { int v = ordinal(s[i]) * (i % 2 ? 2 : 1); sum += v / 10 + v % 10; } return char('0' + (10 - sum % 10) % 10); }
char sedol_digit(const std::string &s) { const int w[] = {1, 3, 1, 7, 3, 9}; int sum = 0; for(size_t i = 0; i < 6; ++i) sum += ordinal(s[i]) * w[i]; return char('0' + (10 - sum % 10) % 10); }
char isin_digit(const std::string &s)       // Luhn over the digits of the expanded text
{
    std::string t; for(char c : s) t += std::to_string(ordinal(c));
    int sum = 0; bool twice = true;
    for(size_t i = t.size(); i-- > 0; twice = !twice) { int v = t[i] - '0'; if(twice) { v *= 2; if(v > 9) v -= 9; } sum += v; }
    return char('0' + (10 - sum % 10) % 10);
}
int mod97(const std::string &t) { int m = 0; for(char c : t) m = (m * 10 + (c - '0')) % 97; return m; }
std::string expand(const std::string &s) { std::string t; for(char c : s) t += std::to_string(ordinal(c)); return t; }
// ISO 7064 MOD 97-10
std::string lei_digits(const std::string &s) { int k = 98 - mod97(expand(s) + "00"); return {char('0' + k / 10), char('0' + k % 10)}; }

std::string country(vmon::rng &r) { return {UPPER[r.below(26)], UPPER[r.below(26)]}; }
// ends abnormally, in a child process that cannot be heard
template<typename F> bool refused(F &&f)
{
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if(p == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); signal(SIGABRT, SIG_DFL); alarm(10);
        try { f(); } catch(...) { _exit(77); } _exit(0); }
    int st = 0; waitpid(p, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
}

SECTION(cusip_codes, ({"C27", "C34"}), 7000, 200000)
{
    auto s = body(c.r, 8, DIGITS + UPPER + (c.r.chance(.3) ? LOWER : "") + (c.r.chance(.5) ? SPECIAL : ""));
    char want = cusip_digit(s);
    c.note("CUSIP ", s, " check digit ", want);
    cusip a(chars<6>(s), chars<2>(s, 6)), b(chars<8>(s)), d(s), e(s + want), g(chars<9>(s + want));
    for(auto *x : {&a, &b, &d, &e, &g}) {
        vmon::check(c, "C27", char(x->checksum()) == want, "cusip-check-digit", s, ": ", char(x->checksum()), " expected ", want);
        vmon::check(c, "C27", print(*x) == s + want && x->representation() == s + want, "cusip-text", print(*x), " expected ", s + want);
        vmon::check(c, "C27", std::string(x->issuer.data(), 6) == s.substr(0, 6) && std::string(x->code.data(), 2) == s.substr(6), "cusip-parts", std::string(x->issuer.data(), 6), " ", std::string(x->code.data(), 2));
    }
    auto back = cusip(print(a)); vmon::check(c, "C27", back.issuer == a.issuer && back.code == a.code, "cusip-not-read-back", print(a));
    for(char w : DIGITS) if(w != want) { auto wrong = s + w;
        vmon::check(c, "C27", vmon::throws_as<esl::exception>([&] { cusip z(chars<9>(wrong)); }), "wrong-cusip-digit-accepted", wrong); vmon::event("wrong check digits refused"); }
    vmon::check(c, "C27", vmon::throws_as<esl::exception>([&] { cusip z(chars<9>(s + UPPER[c.r.below(26)])); }), "wrong-cusip-digit-accepted", s);
    if(c.r.chance(.2)) { cusip first(chars<6>(s)); vmon::check(c, "C27", print(first) == s.substr(0, 6) + "10" + cusip_digit(s.substr(0, 6) + "10"), "cusip-first-issue", print(first)); }
    // a wrong digit, and two digits swapped
    for(size_t i = 0; i < 8; ++i) if(std::isdigit(s[i])) for(char w : DIGITS) if(w != s[i]) { auto t = s; t[i] = w;
        vmon::check(c, "C27", char(cusip(t).checksum()) != want, "cusip-misses-wrong-digit", s, " and ", t); vmon::event("single wrong digits detected"); }
    for(size_t i = 0; i + 1 < 8; ++i) if(std::isdigit(s[i]) && std::isdigit(s[i + 1]) && s[i] != s[i + 1] && std::abs(s[i] - s[i + 1]) != 9) { auto t = s; std::swap(t[i], t[i + 1]);
        vmon::check(c, "C27", char(cusip(t).checksum()) != want, "cusip-misses-swap", s, " and ", t); vmon::event("swaps detected"); }
    c.touch(s);
}

SECTION(sedol_codes, ({"C27", "C34"}), 7000, 200000)
{
    auto s = body(c.r, 6, DIGITS + UPPER + (c.r.chance(.3) ? LOWER : ""));
    char want = sedol_digit(s);
    c.note("SEDOL ", s, " check digit ", want);
    sedol a(chars<6>(s)), b(s), d(s + want);
    for(auto *x : {&a, &b, &d}) {
        vmon::check(c, "C27", x->checksum() == want, "sedol-check-digit", s, ": ", x->checksum(), " expected ", want);
        vmon::check(c, "C27", print(*x) == s + want && x->representation() == s + want, "sedol-text", print(*x), " expected ", s + want);
        vmon::check(c, "C27", std::string(x->code.data(), 6) == s, "sedol-parts", s);
    }
    vmon::check(c, "C27", sedol(print(a)).code == a.code, "sedol-not-read-back", print(a));
    for(size_t i = 0; i < 6; ++i) if(std::isdigit(s[i])) for(char w : DIGITS) if(w != s[i]) { auto t = s; t[i] = w;
        vmon::check(c, "C27", sedol(t).checksum() != want, "sedol-misses-wrong-digit", s, " and ", t); vmon::event("single wrong digits detected"); }
    c.touch(s);
}

SECTION(isin_codes, ({"C27", "C34"}), 7000, 200000)
{
    std::string where = c.index < 676 ? std::string{UPPER[c.index / 26], UPPER[c.index % 26]} : country(c.r);
    auto s = body(c.r, 9, DIGITS + UPPER + (c.r.chance(.2) ? LOWER : ""));
    auto whole = where + s; char want = isin_digit(whole);
    c.note("ISIN ", whole, " check digit ", want);
    geography::iso_3166_1_alpha_2 k(where);
    isin a(k, chars<9>(s)), b(chars<11>(whole)), d(k, s), e(where, s), f(whole), g(whole + want), h(k, s + want), i2(where, s + want);
    for(auto *x : {&a, &b, &d, &e, &f, &g, &h, &i2}) {
        vmon::check(c, "C27", char(x->checksum()) == want, "isin-check-digit", whole, ": ", char(x->checksum()), " expected ", want);
        vmon::check(c, "C27", print(*x) == whole + want && x->representation() == whole + want, "isin-text", print(*x), " expected ", whole + want);
        vmon::check(c, "C27", std::string(x->code.data(), 9) == s && print(x->issuer) == where, "isin-parts", print(x->issuer), " ", std::string(x->code.data(), 9));
    }
    auto back = isin(print(a)); vmon::check(c, "C27", back.code == a.code && print(back.issuer) == where, "isin-not-read-back", print(a));
    if(c.r.chance(.2)) {
        cusip u(s.substr(0, 8)); isin from(k, u); auto n = print(u);
        vmon::check(c, "C27", print(from) == where + n + isin_digit(where + n), "isin-from-cusip", print(from), " from ", n); vmon::event("ISINs from CUSIPs");
    }
    for(size_t i = 0; i < 9; ++i) if(std::isdigit(s[i])) for(char w : DIGITS) if(w != s[i]) { auto t = s; t[i] = w;
        vmon::check(c, "C27", char(isin(k, t).checksum()) != want, "isin-misses-wrong-digit", s, " and ", t); vmon::event("single wrong digits detected"); }
    for(size_t i = 0; i + 1 < 9; ++i) if(std::isdigit(s[i]) && std::isdigit(s[i + 1]) && s[i] != s[i + 1] && std::abs(s[i] - s[i + 1]) != 9) { auto t = s; std::swap(t[i], t[i + 1]);
        vmon::check(c, "C27", char(isin(k, t).checksum()) != want, "isin-misses-swap", s, " and ", t); vmon::event("swaps detected"); }
    // wrong lengths are refused
    if(c.r.chance(.3)) {
        size_t n = c.r.chance(.5) ? c.r.below(9) : 11 + c.r.below(5); auto t = body(c.r, n, DIGITS + UPPER);
        vmon::check(c, "C27", vmon::throws_as<esl::exception>([&] { isin z(k, t); }), "isin-length-accepted", t.size(), " symbols in the national part");
        size_t m = c.r.chance(.5) ? c.r.below(11) : 13 + c.r.below(5); auto u = (where + body(c.r, 20, DIGITS + UPPER)).substr(0, m);
        vmon::check(c, "C27", vmon::throws_as<esl::exception>([&] { isin z(u); }), "isin-length-accepted", u.size(), " symbols");
        auto l = std::string(c.r.chance(.5) ? c.r.below(2) : 3 + c.r.below(3), 'U');
        vmon::check(c, "C27", vmon::throws_as<esl::exception>([&] { isin z(l, s); }), "isin-country-length-accepted", l);
        vmon::event("wrong lengths refused");
    }
    c.touch(whole);
}

SECTION(lei_codes, ({"C27", "C34"}), 7000, 200000)
{
    std::string local; for(int i = 0; i < 4; ++i) local += DIGITS[c.r.below(10)];
    auto s = body(c.r, 12, DIGITS + UPPER); auto whole = local + "00" + s, want = lei_digits(whole);
    c.note("LEI ", whole, " check digits ", want);
    iso_17442 a(chars<4>(local), chars<12>(s)), b(whole), d(whole + want);
    for(auto *x : {&a, &b, &d}) {
        auto [p, q] = x->checksum();
        vmon::check(c, "C27", p == want[0] && q == want[1], "lei-check-digits", whole, ": ", p, q, " expected ", want);
        vmon::check(c, "C27", print(*x) == whole + want, "lei-text", print(*x), " expected ", whole + want);
        vmon::check(c, "C27", std::string(x->local.data(), 4) == local && std::string(x->code.data(), 12) == s, "lei-parts", whole);
        vmon::check(c, "C27", mod97(expand(print(*x))) == 1, "lei-not-valid", print(*x));
    }
    for(int t = 0; t < 12; ++t) {       // any wrong symbol, any swap
        auto u = s; size_t i = c.r.below(12);
        if(t % 2) { const auto &al = std::isdigit(u[i]) ? DIGITS : UPPER; char w = al[c.r.below(al.size())]; if(w == u[i]) continue; u[i] = w; }
        else { if(i == 11 || u[i] == u[i + 1]) continue; std::swap(u[i], u[i + 1]); }
        int delta = 0;      // does the scheme tell them apart? 97 divides the difference otherwise
        delta = (mod97(expand(local + "00" + u)) - mod97(expand(whole)) + 97) % 97;
        if(delta == 0) { vmon::event("changes the scheme cannot detect"); continue; }
        iso_17442 z(chars<4>(local), chars<12>(u));
        vmon::check(c, "C27", z.checksum() != a.checksum(), "lei-misses-change", whole, " and ", u); vmon::event(t % 2 ? "single wrong digits detected" : "swaps detected");
    }
    // a fictional code for any entity is a valid code, and always the same one
    identity<int> id; { std::vector<u64> g; for(u64 i = 0, n = c.r.below(4); i < n; ++i) g.push_back(c.r.magnitude(64)); id = identity<int>(g); }
    auto f = iso_17442::create(id), f2 = iso_17442::create(id);
    vmon::check(c, "C27", print(f) == print(f2) && std::string(f.local.data(), 4) == "0000" && std::string(f.code.data(), 12).find_first_not_of(DIGITS + UPPER) == std::string::npos
                && print(f).substr(18) == lei_digits(print(f).substr(0, 18)), "fictional-lei", print(f));
    c.touch(whole);
}

// wrong check digits of an LEI are refused by assertion
SECTION(lei_refusals, ({"C27"}), 25, 200)
{
    std::string local; for(int i = 0; i < 4; ++i) local += DIGITS[c.r.below(10)];
    auto s = body(c.r, 12, DIGITS + UPPER); auto whole = local + "00" + s, want = lei_digits(whole);
    auto wrong = want; size_t i = c.r.below(2); char w = DIGITS[c.r.below(10)]; if(w == wrong[i]) w = w == '9' ? '0' : char(w + 1); wrong[i] = w;
    c.note(whole + wrong);
    vmon::check(c, "C27", refused([&] { iso_17442 z(whole + wrong); }), "wrong-lei-digits-accepted", whole + wrong, " whose check digits are ", want);
    vmon::check(c, "C27", !refused([&] { iso_17442 z(whole + want); }), "right-lei-digits-refused", whole + want);
    vmon::event("wrong check digits refused"); c.touch(whole + wrong);
}
// every symbol at every position of every code
SECTION(all_symbols, ({"C27"}), 1, 1)
{
    const std::string al = DIGITS + UPPER + LOWER, au = DIGITS + UPPER;
    for(char x : al + SPECIAL) for(size_t i = 0; i < 8; ++i) for(char fill : {'0', '7', 'K'}) { std::string s(8, fill); s[i] = x; vmon::check(c, "C27", char(cusip(s).checksum()) == cusip_digit(s), "cusip-check-digit", s); }
    for(char x : al) for(size_t i = 0; i < 6; ++i) for(char fill : {'0', '7', 'K'}) { std::string s(6, fill); s[i] = x; vmon::check(c, "C27", sedol(s).checksum() == sedol_digit(s), "sedol-check-digit", s); }
    for(char x : al) for(size_t i = 0; i < 9; ++i) for(char fill : {'0', '7', 'K'}) for(auto k : {"US", "GB", "ZZ"}) { std::string s(9, fill); s[i] = x; vmon::check(c, "C27", char(isin(k, s).checksum()) == isin_digit(k + s), "isin-check-digit", k, s); }
    for(char x : au) for(size_t i = 0; i < 12; ++i) for(char fill : {'0', '7', 'Z'}) { std::string s(12, fill); s[i] = x; auto z = iso_17442(chars<4>("5493"), chars<12>(s)); vmon::check(c, "C27", print(z).substr(18) == lei_digits("549300" + s), "lei-check-digits", s); }
    vmon::event("symbols by position", 62 * 27 + 36 * 12); c.touch(1);
}
REQUIRE_EVENT("C27", "wrong check digits refused");
REQUIRE_EVENT("C27", "swaps detected");
REQUIRE_EVENT("C27", "single wrong digits detected");
REQUIRE_EVENT("C27", "wrong lengths refused");
VMON_MAIN
