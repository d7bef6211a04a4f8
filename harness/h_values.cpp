// Values: quantities (C13), prices (C14), quotes (C15), rates (C16), money and codes (C17).
#include "vmon.hpp"
#include <sstream>
#include <esl/economics/markets/iso_10383.hpp>
#include <iomanip>
#include <limits>
#include <unordered_map>
#include <esl/quantity.hpp>
#include <esl/economics/price.hpp>
#include <esl/economics/rate.hpp>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/money.hpp>
#include <esl/economics/cash.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/geography/countries.hpp>
#include <esl/law/jurisdictions.hpp>

using namespace esl;
using namespace esl::economics;
using esl::economics::markets::quote;
using vmon::u64; using vmon::i64;
typedef __int128 wide;
typedef unsigned __int128 uwide;

namespace {
struct named_currency { const char *name; iso_4217 code; u64 minor; };
const std::vector<named_currency> &all_currencies()
{
    static const std::vector<named_currency> v = {
#define CURRENCY(C, D) {#C, currencies::C, D},
#include "constants.inc"
#undef CURRENCY
    };
    return v;
}
struct named_country { std::string name; const geography::iso_3166_1_alpha_2 *code; };
const std::vector<named_country> &all_countries()
{
    static const std::vector<named_country> v = {
#define COUNTRY(C) {#C, &geography::countries::C},
#include "constants.inc"
#undef COUNTRY
    };
    return v;
}

u64 q_amount(vmon::ctx &c)
{
    switch(c.r.below(6)) {
    case 0: return c.r.below(4);
    case 1: return c.r.below(1000);
    case 2: return c.r.pick({u64(1) << 31, u64(1) << 32, (u64(1) << 32) - 1, u64(1) << 53, (u64(1) << 53) - 1, (u64(1) << 53) + 1, u64(1) << 63, (u64(1) << 63) - 1, std::numeric_limits<u64>::max(), std::numeric_limits<u64>::max() - 1});
    default: return c.r.magnitude(64);
    }
}
i64 p_amount(vmon::ctx &c, int bits = 53)
{
    i64 v;
    switch(c.r.below(6)) {
    case 0: v = c.r.in(0, 3); break;
    case 1: v = c.r.in(0, 1000); break;
    case 2: v = c.r.pick({i64(1) << (bits - 1), (i64(1) << bits) - 1, i64(100), i64(10), i64(99), i64(999), i64(1000)}); v &= (i64(1) << bits) - 1; break;
    default: v = i64(c.r.magnitude(bits)); break;
    }
    return c.r.chance(0.45) ? -v : v;
}
// a comparison of every operator with the order of the amounts
template<typename A, typename B, typename W>
void six(vmon::ctx &c, const char *prop, const std::string &what, const A &a, const B &b, W x, W y)
{
    vmon::check(c, prop, (a == b) == (x == y), what + " ==", what, " operands ", double(x), " ", double(y));
    vmon::check(c, prop, (a <  b) == (x <  y), what + " <", what, " operands ", double(x), " ", double(y));
    vmon::check(c, prop, (a >  b) == (x >  y), what + " >", what, " operands ", double(x), " ", double(y));
    vmon::check(c, prop, (a <= b) == (x <= y), what + " <=", what, " operands ", double(x), " ", double(y));
    vmon::check(c, prop, (a >= b) == (x >= y), what + " >=", what, " operands ", double(x), " ", double(y));
}
}

// ------------------------------------------------------------------ C13
template<u64 n> static void divide_static(vmon::ctx &c, u64 v)
{
    auto parts = quantity(v).divide<n>();
    uwide sum = 0; bool order = true, near = true;
    for(size_t i = 0; i < parts.size(); ++i) {
        sum += parts[i].amount;
        if(i) { order &= parts[i - 1].amount >= parts[i].amount; }
        near &= parts[i].amount == v / n || parts[i].amount == v / n + 1;
    }
    vmon::check(c, "C13", sum == v, "static-division-sum", v, " into ", n);
    vmon::check(c, "C13", order, "static-division-order", v, " into ", n);
    vmon::check(c, "C13", near && parts[0].amount - parts[n - 1].amount <= 1, "static-division-balance", v, " into ", n);
    vmon::event("static divisions");
}
static void divide_dynamic(vmon::ctx &c, u64 v, u64 n)
{
    auto parts = quantity(v) / n;
    vmon::check(c, "C13", parts.size() == n, "dynamic-division-count", v, " into ", n, " gave ", parts.size());
    uwide sum = 0; bool order = true;
    for(size_t i = 0; i < parts.size(); ++i) { sum += parts[i].amount; if(i) order &= parts[i - 1].amount >= parts[i].amount; }
    vmon::check(c, "C13", sum == v, "dynamic-division-sum", v, " into ", n, " sums to ", u64(sum));
    vmon::check(c, "C13", order, "dynamic-division-order", v, " into ", n);
    if(!parts.empty()) vmon::check(c, "C13", parts.front().amount - parts.back().amount <= 1, "dynamic-division-balance", v, " into ", n);
    vmon::event("dynamic divisions");
    vmon::distinct(vmon::hash_combine(vmon::hash_combine(11, v), n));
}
SECTION(quantity_arithmetic, ({"C13", "C34"}), 20000, 400000)
{
    u64 a = q_amount(c), b = q_amount(c);
    if(c.r.chance(0.1)) b = a;
    if(c.r.chance(0.1)) b = a + 1;
    if(c.r.chance(0.2)) { a >>= 32; b >>= 32; }
    c.note("a=", a, " b=", b);
    const quantity qa(a), qb(b);
    six(c, "C13", "quantity", qa, qb, uwide(a), uwide(b));
    vmon::check(c, "C13", (qa != qb) == (a != b), "quantity !=", a, " ", b);
    if(a < (u64(1) << 53) && b < (u64(1) << 53)) {
        double d = double(b);
        double e = c.r.chance(0.3) ? d + 0.5 : d;
        if(e < 9e15) six(c, "C13", "quantity with real", qa, e, double(a), e);
        vmon::check(c, "C13", double(qa) == double(a), "to-double");
    }
    vmon::check(c, "C13", u64(qa) == a, "to-integer");
    if(uwide(a) + b <= std::numeric_limits<u64>::max()) {
        quantity s = qa + qb, t(a); t += qb;
        vmon::check(c, "C13", s.amount == a + b, "addition", a, " + ", b, " = ", s.amount);
        vmon::check(c, "C13", t.amount == a + b, "compound-addition", a, " += ", b, " = ", t.amount);
        quantity back = s - qb;
        vmon::check(c, "C13", back.amount == a, "add-then-subtract");
        vmon::event("additions");
    }
    {
        quantity t(a); bool thrown = false, thrown2 = false; u64 diff = 0;
        try { quantity r = qa - qb; diff = r.amount; } catch(const esl::exception &) { thrown = true; }
        try { t -= qb; } catch(const esl::exception &) { thrown2 = true; }
        if(a >= b) {
            vmon::check(c, "C13", !thrown && diff == a - b, "subtraction", a, " - ", b, " = ", diff);
            vmon::check(c, "C13", !thrown2 && t.amount == a - b, "compound-subtraction", a, " -= ", b);
        } else {
            vmon::check(c, "C13", thrown, "negative-subtraction-accepted", a, " - ", b, " = ", diff);
            vmon::check(c, "C13", thrown2, "negative-compound-subtraction-accepted", a, " -= ", b, " = ", t.amount);
            vmon::check(c, "C13", t.amount == a, "refused-subtraction-changed-the-amount", a, " -= ", b, " = ", t.amount);
            vmon::event("refused subtractions");
        }
        vmon::check(c, "C13", qa.amount == a && qb.amount == b, "operand-changed");
    }
    {   // self operations
        quantity t(a);
        t -= t; vmon::check(c, "C13", t.amount == 0, "subtract-itself", a);
        if(a < (u64(1) << 63)) { quantity u(a); u += u; vmon::check(c, "C13", u.amount == 2 * a, "add-itself", a); }
    }
    if(uwide(a) * b <= std::numeric_limits<u64>::max()) {
        quantity t(a); t *= b;
        vmon::check(c, "C13", (qa * b).amount == a * b, "multiplication", a, " * ", b);
        vmon::check(c, "C13", (qa * qb).amount == a * b, "quantity-multiplication", a, " * ", b);
        vmon::check(c, "C13", t.amount == a * b, "compound-multiplication", a, " *= ", b);
        if(b) { t /= b; vmon::check(c, "C13", t.amount == a, "multiply-then-divide", a, " ", b); }
        vmon::event("multiplications");
    }
    if(b) { quantity t(a); t /= b; vmon::check(c, "C13", t.amount == a / b, "compound-division", a, " /= ", b); }
    if(a != std::numeric_limits<u64>::max()) {
        quantity t(a); quantity &r = ++t;
        vmon::check(c, "C13", t.amount == a + 1 && &r == &t, "pre-increment", a);
        quantity u(a); quantity old = u++;
        vmon::check(c, "C13", u.amount == a + 1 && old.amount == a, "post-increment", a);
    }
    {
        quantity t(a), u(a); bool tt = false, tu = false; quantity old(0);
        try { --t; } catch(const esl::exception &) { tt = true; }
        try { old = u--; } catch(const esl::exception &) { tu = true; }
        if(a) {
            vmon::check(c, "C13", !tt && t.amount == a - 1, "pre-decrement", a, " became ", t.amount);
            vmon::check(c, "C13", !tu && u.amount == a - 1 && old.amount == a, "post-decrement", a, " became ", u.amount);
        } else {
            vmon::check(c, "C13", tt && t.amount == 0, "pre-decrement-below-zero", t.amount);
            vmon::check(c, "C13", tu && u.amount == 0, "post-decrement-below-zero", u.amount);
        }
        vmon::event("decrements");
    }
    vmon::check(c, "C13", qa.representation() == std::to_string(a), "text", qa.representation());
    c.touch(vmon::hash_combine(a, b));
}
SECTION(quantity_division, ({"C13", "C34"}), 3000, 60000)
{
    u64 v = q_amount(c);
    u64 n = c.r.chance(0.5) ? u64(c.r.in(1, 20)) : (c.r.chance(0.8) ? u64(c.r.in(1, 300)) : u64(c.r.in(1000, 5000)));
    if(c.r.chance(0.2)) v = n * c.r.below(5) + c.r.below(n);
    c.note(v, " into ", n);
    divide_dynamic(c, v, n);
    if(v < 40) for(u64 k = 1; k < 12; ++k) divide_dynamic(c, v, k);
    divide_static<1>(c, v); divide_static<2>(c, v); divide_static<3>(c, v); divide_static<4>(c, v); divide_static<5>(c, v); divide_static<7>(c, v);
    divide_static<10>(c, v); divide_static<13>(c, v); divide_static<64>(c, v); divide_static<100>(c, v); divide_static<1000>(c, v);
    c.touch(vmon::hash_combine(v, n));
}
REQUIRE_EVENT("C13", "refused subtractions");
REQUIRE_EVENT("C13", "dynamic divisions");

// ------------------------------------------------------------------ C14
// exact decimal text of value/denominator
static std::string decimal(i64 value, u64 den)
{
    u64 m = value < 0 ? u64(-(value + 1)) + 1 : u64(value);
    int digits = 0; for(u64 d = den; d > 1; d /= 10) ++digits;
    std::string s = std::to_string(m / den);
    if(digits) { std::string f = std::to_string(m % den); s += "." + std::string(size_t(digits) - f.size(), '0') + f; }
    return (value < 0 ? "-" : "") + s;
}
static std::string amount_in(const std::string &text)
{
    auto o = text.find('('), e = text.find(')');
    if(o == std::string::npos || e == std::string::npos || e < o) return "";
    std::string r; for(size_t i = o + 1; i < e; ++i) if(text[i] != ',' && text[i] != ' ') r += text[i];
    return r;
}
SECTION(price_arithmetic, ({"C14", "C34"}), 20000, 400000)
{
    auto &cur = c.r.pick(all_currencies());
    i64 a = p_amount(c), b = p_amount(c);
    if(c.r.chance(0.1)) b = a;
    if(c.r.chance(0.05)) b = -a;
    const price x(a, cur.code), y(b, cur.code);
    c.note(cur.name, " ", a, " ", b);
    six(c, "C14", "price", x, y, wide(a), wide(b));
    vmon::check(c, "C14", (x != y) == (a != b), "price !=", a, " ", b);
    auto exact = [&](const char *what, const price &p, wide v) {
        vmon::check(c, "C14", wide(p.value) == v, what, a, " ", b, " gives ", p.value);
        vmon::check(c, "C14", p.valuation == cur.code, std::string(what) + " currency", cur.name);
    };
    exact("addition", x + y, wide(a) + b);
    exact("subtraction", x - y, wide(a) - b);
    exact("negation", -x, -wide(a));
    { price t = x; t += y; exact("compound addition", t, wide(a) + b); t -= y; exact("compound subtraction", t, a); }
    { price t = x; t -= t; exact("subtracting itself", t, 0); price u = x; u += u; exact("adding itself", u, wide(a) * 2); }
    {
        int bits = a ? 62 - (64 - __builtin_clzll(u64(a < 0 ? -a : a))) : 30;
        i64 k = bits > 0 ? i64(c.r.magnitude(bits)) : 0;
        exact("scaling by uint64", x * std::uint64_t(k), wide(a) * k);
        exact("uint64 scaling", std::uint64_t(k) * x, wide(a) * k);
        i64 s = c.r.chance(0.5) ? -k : k;
        exact("scaling by int64", x * std::int64_t(s), wide(a) * s);
        if(k < (i64(1) << 31)) { exact("scaling by int", x * int(s), wide(a) * s); exact("scaling by unsigned", x * unsigned(k), wide(a) * k); }
    }
    {   // products and quotients of prices work on the amounts
        i64 u = p_amount(c, 30), v = p_amount(c, 30);
        price p(u, cur.code), q(v, cur.code);
        exact("product", p * q, wide(u) * v);
        { price t = p; t *= q; exact("compound product", t, wide(u) * v); }
        if(v) { exact("quotient", p / q, wide(u) / v); price t = p; t /= q; exact("compound quotient", t, wide(u) / v); }
        i64 d = c.r.in(-1000, 1000);
        exact("real addition", p + double(d), wide(u) + d);
        exact("real subtraction", p - double(d), wide(u) - d);
        exact("real scaling", p * double(d), wide(u) * d);
    }
    vmon::check(c, "C14", x.value == a && y.value == b, "operand-changed");
    c.touch(vmon::hash_combine(vmon::hash_combine(u64(a), u64(b)), vmon::hash_string(cur.name)));
    vmon::event("same-currency operations", 20);
}
SECTION(price_currencies, ({"C14", "C34"}), 6000, 100000)
{
    auto &c1 = c.r.pick(all_currencies()); auto &c2 = c.r.pick(all_currencies());
    i64 a = p_amount(c), b = c.r.chance(0.4) ? a : p_amount(c);
    iso_4217 k1 = c1.code, k2 = c2.code;
    if(c.r.chance(0.1)) { k2 = iso_4217(k1.code, k1.denominator * 10); }     // same letters, other unit
    const price x(a, k1), y(b, k2);
    c.note(c1.name, " ", a, " / ", c2.name, " ", b);
    bool same = k1 == k2;
    vmon::check(c, "C14", same == (k1.code == k2.code && k1.denominator == k2.denominator), "currency-equality");
    vmon::check(c, "C14", (x == y) == (same && a == b), "equality-across-currencies", c1.name, " ", c2.name);
    vmon::check(c, "C14", (x != y) == !(same && a == b), "inequality-across-currencies", c1.name, " ", c2.name);
    if(same) return;
    auto refused = [&](const char *op, auto f) {
        vmon::check(c, "C14", vmon::throws(f), std::string("accepted-across-currencies ") + op, c1.name, " ", a, " ", op, " ", c2.name, " ", b);
        vmon::event("mixed-currency refusals");
    };
    refused("<", [&] { (void)(x < y); });
    refused(">", [&] { (void)(x > y); });
    refused("<=", [&] { (void)(x <= y); });
    refused(">=", [&] { (void)(x >= y); });
    refused("+", [&] { (void)(x + y); });
    refused("-", [&] { (void)(x - y); });
    { price t = x; refused("+=", [&] { t += y; }); vmon::check(c, "C14", t == x, "refused-addition-changed"); }
    { price t = x; refused("-=", [&] { t -= y; }); vmon::check(c, "C14", t == x, "refused-subtraction-changed"); }
    refused("*", [&] { (void)(price(3, k1) * price(5, k2)); });
    refused("/", [&] { (void)(price(9, k1) / price(3, k2)); });
    { price t(7, k1); t = y; vmon::check(c, "C14", t == y && t.valuation == k2, "assignment"); }
    c.touch(vmon::hash_combine(vmon::hash_string(c1.name), vmon::hash_string(c2.name)));
}
SECTION(price_decimal, ({"C14", "C34"}), 20000, 400000)
{
    auto &cur = c.r.pick(all_currencies());
    i64 a = p_amount(c, 50);
    const price x(a, cur.code);
    c.note(cur.name, " ", a);
    // amount -> decimal -> amount
    double d = double(x);
    vmon::check(c, "C14", std::abs((long double)d * (long double)cur.minor - (long double)a) < 0.5L, "decimal-value", cur.name, " ", a, " as ", std::setprecision(20), d);
    price back(d, x);
    vmon::check(c, "C14", std::abs(back.value - a) <= 1 && back.valuation == cur.code, "there-and-back", a, " ", back.value);
    // decimal -> amount -> decimal
    double r = (c.r.chance(0.5) ? double(p_amount(c, 38)) / c.r.pick({1., 2., 3., 7., 10., 100., 1000., 4096.}) : c.r.real(-1e6, 1e6));
    for(int k = 0; k < 2; ++k) {
        price p = k ? price(r, x) : price::approximate(r, cur.code);
        long double ideal = (long double)r * (long double)cur.minor;
        vmon::check(c, "C14", std::abs((long double)p.value - ideal) < 1.0L + std::abs(ideal) * 1e-15L, "conversion-loses-a-unit", std::setprecision(20), r, " as ", p.value);
        vmon::check(c, "C14", std::abs((long double)p.value) <= std::abs(ideal) * (1 + 1e-15L) + 1e-3L, "conversion-not-towards-zero", std::setprecision(20), r, " as ", p.value);
        vmon::check(c, "C14", p.valuation == cur.code, "conversion-currency");
    }
    std::string s = x.representation();
    std::stringstream t; if(c.r.chance(0.5)) t << std::setprecision(3) << std::scientific; t << x;
    vmon::check(c, "C14", s == t.str(), "text-depends-on-the-stream", s, " ", t.str());
    vmon::check(c, "C14", s.find(cur.name) != std::string::npos, "text-without-currency", s);
    vmon::check(c, "C14", amount_in(s) == decimal(a, cur.minor), "text-amount", s, " for ", decimal(a, cur.minor));
    vmon::event("prices printed");
    c.touch(s);
}
REQUIRE_EVENT("C14", "mixed-currency refusals");
REQUIRE_EVENT("C14", "prices printed");

// ------------------------------------------------------------------ C15
static std::uint32_t some_lot(vmon::ctx &c)
{
    return c.r.pick({std::uint32_t(1), std::uint32_t(1), std::uint32_t(2), std::uint32_t(10), std::uint32_t(100), std::uint32_t(1000), std::uint32_t(1000000), std::uint32_t(c.r.in(1, 1000000))});
}
SECTION(quote_operations, ({"C15", "C34"}), 20000, 400000)
{
    auto &cur = c.r.pick(all_currencies());
    std::uint32_t lot = some_lot(c);
    i64 a = p_amount(c), b = p_amount(c);
    if(c.r.chance(0.2)) b = a; else if(c.r.chance(0.2)) b = a + c.r.in(-1, 1);
    const quote x(price(a, cur.code), lot), y(price(b, cur.code), lot);
    c.note(lot, "@", cur.name, " ", a, " ", b);
    vmon::check(c, "C15", x.lot == lot && std::get<price>(x.type) == price(a, cur.code), "construction", lot, " ", a);
    six(c, "C15", "quote", x, y, wide(a), wide(b));
    vmon::check(c, "C15", (x != y) == (a != b), "quote !=", a, " ", b);
    auto exact = [&](const char *what, const quote &q, wide v) {
        auto *p = std::get_if<price>(&q.type);
        vmon::check(c, "C15", p && wide(p->value) == v, what, lot, "@", a, " ", b);
        vmon::check(c, "C15", q.lot == lot, std::string(what) + " lot", lot, " became ", q.lot);
        vmon::check(c, "C15", p && p->valuation == cur.code, std::string(what) + " currency");
    };
    exact("addition", x + y, wide(a) + b);
    exact("subtraction", x - y, wide(a) - b);
    i64 u = p_amount(c, 30), v = p_amount(c, 30), d = c.r.in(-1000, 1000);
    quote p(price(u, cur.code), lot), q(price(v, cur.code), lot);
    exact("product", p * q, wide(u) * v);
    if(v) exact("quotient", p / q, wide(u) / v);
    exact("real addition", p + double(d), wide(u) + d);
    exact("real subtraction", p - double(d), wide(u) - d);
    exact("real product", p * double(d), wide(u) * d);
    i64 w = i64(1) << c.r.in(0, 8); exact("real quotient", quote(price(u * w, cur.code), lot) / double(w), u);
    { quote t(x); exact("copy", t, a); quote s(price(1, currencies::USD), 77); s = y; exact("assignment", s, b); s = s; exact("self assignment", s, b); }
    i64 small = p_amount(c, 50);
    quote z(price(small, cur.code), lot);
    long double ideal = (long double)small / cur.minor / lot;
    vmon::check(c, "C15", std::abs((long double)double(z) - ideal) <= std::abs(ideal) * 1e-12L, "real-value", small, " lot ", lot);
    { double f = c.r.real(-1e6, 1e6); quote s(f, z); auto *pp = std::get_if<price>(&s.type);
      vmon::check(c, "C15", pp && std::abs((long double)pp->value - (long double)f * cur.minor) < 1 && s.lot == lot && pp->valuation == cur.code, "similar-quote", f); }
    std::string text = z.representation();
    vmon::check(c, "C15", text == std::to_string(lot) + "@" + std::get<price>(z.type).representation(), "text", text);
    c.touch(vmon::hash_combine(vmon::hash_combine(u64(a), u64(b)), vmon::hash_combine(lot, vmon::hash_string(cur.name))));
    vmon::event("same-lot comparisons", 6);
}
SECTION(quote_mixed, ({"C15", "C34"}), 8000, 100000)
{
    auto &c1 = c.r.pick(all_currencies()); auto &c2 = c.r.pick(all_currencies());
    std::uint32_t l1 = some_lot(c), l2 = c.r.chance(0.3) ? l1 : some_lot(c);
    i64 a = p_amount(c, 40), b = c.r.chance(0.5) ? a : p_amount(c, 40);
    const bool one_currency = c.r.chance(0.6);
    const iso_4217 k1 = c1.code, k2 = one_currency ? c1.code : c2.code;
    if(c.r.chance(0.3) && l1 != l2) { a = a / l2 * l2 / 4; b = a / i64(l2) * i64(l1); }    // proportional amounts
    const quote x(price(a, k1), l1), y(price(b, k2), l2);
    c.note(x, " ", y);
    auto refused = [&](const std::string &op, auto f) { vmon::check(c, "C15", vmon::throws(f), "accepted " + op, x, " ", y); vmon::event("refusals"); };
    if(l1 != l2) {
        refused("different lots <", [&] { (void)(x < y); });
        refused("different lots >", [&] { (void)(x > y); });
        refused("different lots <=", [&] { (void)(x <= y); });
        refused("different lots >=", [&] { (void)(x >= y); });
        refused("different lots reversed <", [&] { (void)(y < x); });
        refused("different lots reversed >=", [&] { (void)(y >= x); });
        refused("different lots +", [&] { (void)(x + y); });
        refused("different lots -", [&] { (void)(x - y); });
        vmon::event("different-lot refusals");
    } else if(k1 != k2) {
        refused("different currencies <", [&] { (void)(x < y); });
        refused("different currencies >", [&] { (void)(x > y); });
        refused("different currencies <=", [&] { (void)(x <= y); });
        refused("different currencies >=", [&] { (void)(x >= y); });
        refused("different currencies +", [&] { (void)(x + y); });
        refused("different currencies -", [&] { (void)(x - y); });
        vmon::check(c, "C15", !(x == y) && x != y, "equal-in-different-currencies", x, " ", y);
        vmon::event("different-currency refusals");
    }
    vmon::check(c, "C15", vmon::throws([&] { quote z(price(a, k1), 0); }), "zero-lot-accepted");
    c.touch(x.representation()); c.touch(y.representation());
}
SECTION(quote_order, ({"C15"}), 1500, 20000)
{
    // a total order on quotes of one lot: sorting agrees with sorting the amounts
    auto &cur = c.r.pick(all_currencies()); std::uint32_t lot = some_lot(c);
    std::vector<quote> qs; std::vector<i64> as;
    size_t n = size_t(c.r.in(2, 40));
    for(size_t i = 0; i < n; ++i) { i64 v = c.r.chance(0.5) ? c.r.in(-5, 5) : p_amount(c); as.push_back(v); qs.emplace_back(price(v, cur.code), lot); }
    std::sort(as.begin(), as.end()); std::sort(qs.begin(), qs.end());
    bool ok = true; for(size_t i = 0; i < n; ++i) ok &= std::get<price>(qs[i].type).value == as[i];
    vmon::check(c, "C15", ok, "sorted-quotes");
    c.touch(vmon::hash_combine(u64(as.front()), u64(as.back())));
}
REQUIRE_EVENT("C15", "different-lot refusals");
REQUIRE_EVENT("C15", "different-currency refusals");

// ------------------------------------------------------------------ C16
static wide wgcd(wide a, wide b) { if(a < 0) a = -a; if(b < 0) b = -b; while(b) { wide t = a % b; a = b; b = t; } return a; }
struct fraction { wide n, d; };
static fraction lowest(wide n, wide d) { wide g = wgcd(n, d); if(d < 0) { n = -n; d = -d; } if(!g) g = 1; return {n / g, d / g}; }
static i64 part(vmon::ctx &c, bool negative = true)
{
    i64 v = c.r.chance(0.3) ? c.r.in(0, 12) : c.r.chance(0.3) ? c.r.in(0, 1000) * c.r.pick({1, 10, 100}) : i64(c.r.magnitude(31));
    return negative && c.r.chance(0.4) ? -v : v;
}
SECTION(rate_arithmetic, ({"C16", "C34"}), 20000, 400000)
{
    i64 n = part(c), d = std::max<i64>(1, part(c, false)), m = part(c), e = std::max<i64>(1, part(c, false));
    if(c.r.chance(0.15)) { i64 k = c.r.in(1, 9); m = n / 9 * k; e = std::max<i64>(1, d / 9 * k); }
    rate<> x(n, d), y(m, e);
    c.note(n, "/", d, " ", m, "/", e);
    auto same = [&](const char *what, const boost::rational<std::int64_t> &r, fraction f) {
        vmon::check(c, "C16", wide(r.numerator()) == f.n && wide(r.denominator()) == f.d, what, n, "/", d, " and ", m, "/", e, " give ", r.numerator(), "/", r.denominator());
    };
    same("value", x, lowest(n, d));
    { rate<> t(x); same("copy", t, lowest(n, d)); rate<> u(boost::rational<std::int64_t>(n, d)); same("from rational", u, lowest(n, d)); }
    auto fits = [](fraction f) { wide M = wide(1) << 62; return f.n < M && f.n > -M && f.d < M; };
    fraction s = lowest(wide(n) * e + wide(m) * d, wide(d) * e), q = lowest(wide(n) * e - wide(m) * d, wide(d) * e);
    if(fits(s)) { rate<> t(x); t += y; same("sum", t, s); }
    if(fits(q)) { rate<> t(x); t -= y; same("difference", t, q); }
    { rate<> t(x); t *= y; same("product", t, lowest(wide(n) * m, wide(d) * e)); }
    if(m) { rate<> t(x); t /= y; same("quotient", t, lowest(wide(n) * e, wide(d) * m)); }
    same("negation", -x, lowest(-wide(n), d));
    wide l = wide(n) * e, r = wide(m) * d;
    vmon::check(c, "C16", (x < y) == (l < r), "rate <"); vmon::check(c, "C16", (x > y) == (l > r), "rate >");
    vmon::check(c, "C16", (x <= y) == (l <= r), "rate <="); vmon::check(c, "C16", (x >= y) == (l >= r), "rate >=");
    vmon::check(c, "C16", (x == y) == (l == r), "rate =="); vmon::check(c, "C16", (x != y) == (l != r), "rate !=");
    double v = double(x);
    vmon::check(c, "C16", std::abs((long double)v - (long double)n / d) <= 1e-15L * std::abs((long double)n / d), "to-double", v);
    {   // from a real number, truncated to the precision
        double f = c.r.real(-1000, 1000); u64 prec = c.r.pick({u64(10000), u64(1), u64(100), u64(1000000)});
        rate<> t(f, prec); long double got = (long double)t.numerator() / t.denominator();
        vmon::check(c, "C16", std::abs(got - (long double)f) < 1.0L / prec + 1e-12L && std::abs(got) <= std::abs((long double)f) + 1e-12L, "from-double", f, " at ", prec, " gives ", double(got));
        vmon::check(c, "C16", prec % u64(t.denominator()) == 0, "from-double-precision");
        rate<> t2(f); vmon::check(c, "C16", std::abs((long double)t2.numerator() / t2.denominator() - (long double)f) < 1e-4L + 1e-12L, "from-double-default");
    }
    interest_rate ir(x, simulation::time_duration(365)); same("interest rate", ir, lowest(n, d)); vmon::check(c, "C16", ir.duration == 365, "interest-rate-duration");
    nominal_interest_rate nr(x, 7); real_interest_rate rr(boost::rational<std::int64_t>(n, d), 9);
    same("nominal rate", nr, lowest(n, d)); same("real rate", rr, lowest(n, d)); vmon::check(c, "C16", nr.duration == 7 && rr.duration == 9, "interest-rate-duration");
    i64 begin = std::max<i64>(1, part(c, false)), end = part(c, false);
    auto inf = inflation_rate::from_consumer_prices(price(begin, currencies::USD), price(end, currencies::USD), 12);
    same("inflation", inf, lowest(wide(end) - begin, begin)); vmon::check(c, "C16", inf.duration == 12, "inflation-duration");
    c.touch(vmon::hash_combine(vmon::hash_combine(u64(n), u64(d)), vmon::hash_combine(u64(m), u64(e))));
    vmon::event("rate operations", 20);
}
SECTION(exchange_rates, ({"C16", "C34"}), 20000, 400000)
{
    u64 n = std::max<i64>(1, part(c, false)), d = std::max<i64>(1, part(c, false));
    if(c.r.chance(0.3)) { d = c.r.pick({u64(1), u64(100), u64(10000), u64(1000)}); }
    exchange_rate x(n, d);
    c.note(n, "/", d);
    fraction f = lowest(wide(n), wide(d));
    vmon::check(c, "C16", wide(x.numerator()) == f.n && wide(x.denominator()) == f.d, "exchange-rate-value", n, "/", d);
    exchange_rate inv(x.denominator(), x.numerator()), twice(inv.denominator(), inv.numerator());
    vmon::check(c, "C16", twice == x, "inverted-twice", n, "/", d);
    vmon::check(c, "C16", [&] { exchange_rate t(x); t *= inv; return t == exchange_rate(1, 1); }(), "times-inverse", n, "/", d);
    { exchange_rate copy(x); rate<std::uint64_t> r(x); exchange_rate fromrate(r); vmon::check(c, "C16", copy == x && fromrate == x, "exchange-rate-copy"); }
    u64 m = std::max<i64>(1, part(c, false)), e = std::max<i64>(1, part(c, false)); exchange_rate y(m, e);
    wide l = wide(n) * e, r = wide(m) * d;
    vmon::check(c, "C16", (x < y) == (l < r) && (x > y) == (l > r) && (x == y) == (l == r) && (x <= y) == (l <= r) && (x >= y) == (l >= r) && (x != y) == (l != r), "exchange-rate-order", n, "/", d, " ", m, "/", e);
    vmon::check(c, "C16", std::abs((long double)double(x) - (long double)n / d) <= 1e-15L * n / d, "exchange-rate-to-double");
    {   // a real rate in steps of another rate's denominator
        double g = c.r.chance(.5) ? c.r.real(0.01, 10) : std::ldexp(c.r.real(0.5, 1), int(c.r.below(50)));
        u64 den = c.r.pick({u64(1), u64(100), u64(10000), u64(1000003)});
        if(g * double(den) >= 1 && g * double(den) < std::ldexp(1., 62)) {
            exchange_rate z(g, exchange_rate(den + 1, den));
            fraction w = lowest(wide(u64(g * double(den))), wide(den));
            vmon::check(c, "C16", wide(z.numerator()) == w.n && wide(z.denominator()) == w.d, "exchange-rate-from-real", g, " in steps of 1/", den, " gives ", z.numerator(), "/", z.denominator());
            vmon::event("exchange rates from real numbers");
        }
    }
    auto &cur = c.r.pick(all_currencies());
    i64 a = c.r.chance(0.5) ? p_amount(c, 31) : p_amount(c, 53);
    wide product = wide(a) * f.n; wide ideal = product / f.d, rest = product % f.d;
    if(ideal < (wide(1) << 62) && ideal > -(wide(1) << 62)) {
        price p = x * price(a, cur.code);
        wide diff = wide(p.value) - ideal;      // ideal is truncated towards zero
        bool near = diff == 0 || (rest != 0 && diff == (a < 0 ? -1 : 1));
        vmon::check(c, "C16", near, "price-conversion", a, " * ", n, "/", d, " gives ", p.value, " instead of ", i64(ideal));
        vmon::check(c, "C16", (x * price(-a, cur.code)).value == -p.value, "price-conversion-symmetry", a);
        vmon::event(a < 0 ? "negative prices converted" : "other prices converted");
        if(f.d == 1) { price b = inv * p; vmon::check(c, "C16", b.value == a, "price-there-and-back", a, " ", n); }
    }
    c.touch(vmon::hash_combine(vmon::hash_combine(n, d), u64(a)));
}
// construction refused with an exception, or stopped by an assertion
template<typename F> static bool refused_in_child(F f)
{
    std::cout.flush();
    pid_t pid = fork();
    if(pid == 0) {
        alarm(10); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1);
        signal(SIGABRT, SIG_DFL);
        try { f(); } catch(...) { _exit(3); }
        _exit(4);
    }
    int st = 0; waitpid(pid, &st, 0);
    return (WIFEXITED(st) && WEXITSTATUS(st) == 3) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
}
SECTION(zero_denominator, ({"C16"}), 12, 60)
{
    volatile i64 n = part(c); volatile i64 z = 0; volatile u64 un = u64(std::max<i64>(1, part(c, false))), uz = 0;
    c.note(i64(n));
    vmon::check(c, "C16", refused_in_child([&] { rate<> r(n, z); }), "zero-denominator-rate", i64(n));
    vmon::check(c, "C16", refused_in_child([&] { exchange_rate r(un, uz); }), "zero-denominator-exchange-rate", u64(un));
    vmon::check(c, "C16", refused_in_child([&] { interest_rate r(rate<>(n, z), 1); }), "zero-denominator-interest-rate", i64(n));
    vmon::check(c, "C16", !refused_in_child([&] { rate<> r(n, z + 1); exchange_rate e(un, uz + 1); }), "valid-rate-refused");
    c.touch(u64(n));
    vmon::event("zero denominators refused", 3);
}
REQUIRE_EVENT("C16", "negative prices converted");
REQUIRE_EVENT("C16", "zero denominators refused");

// ------------------------------------------------------------------ C17
SECTION(currency_constants, ({"C17"}), 1, 1)
{
    std::set<size_t> hashes; std::set<std::string> names;
    for(auto &x : all_currencies()) {
        c.note(x.name);
        std::ostringstream o; o << x.code;
        vmon::check(c, "C17", o.str() == x.name && std::string(x.code) == x.name && std::string(x.code.code.data(), 3) == x.name, "currency-code", x.name, " is ", o.str());
        vmon::check(c, "C17", x.code.denominator == x.minor, "currency-minor-units", x.name, " has ", x.code.denominator);
        vmon::check(c, "C17", hashes.insert(std::hash<iso_4217>()(x.code)).second, "currency-hash-collision", x.name);
        std::string full = currency_name(x.code);
        vmon::check(c, "C17", !full.empty() && full != x.name && names.insert(full).second, "currency-name", x.name, " is called ", full);
        for(u64 k = 0; k < 4; ++k) { u64 q = q_amount(c); vmon::check(c, "C17", x.code.format(q) == std::string(x.name) + " " + std::to_string(q) + "/" + std::to_string(x.minor), "currency-format", x.code.format(q)); }
        for(auto &y : all_currencies()) {
            bool same = std::string(x.name) == y.name;
            vmon::check(c, "C17", (x.code == y.code) == same && (x.code != y.code) == !same, "currency-equality", x.name, " ", y.name);
            vmon::check(c, "C17", (x.code < y.code) == (std::string(x.name) < y.name), "currency-order", x.name, " ", y.name);
        }
        c.touch(vmon::hash_string(x.name)); vmon::distinct(vmon::hash_string(x.name));
    }
    vmon::event("currencies", all_currencies().size());
}
SECTION(country_constants, ({"C17"}), 1, 1)
{
    std::set<size_t> hashes; std::set<std::string> names;
    for(auto &x : all_countries()) {
        std::ostringstream o; o << *x.code;
        vmon::check(c, "C17", o.str() == x.name && x.code->representation() == x.name && std::string(x.code->code.data(), 2) == x.name, "country-code", x.name, " is ", o.str());
        vmon::check(c, "C17", hashes.insert(std::hash<geography::iso_3166_1_alpha_2>()(*x.code)).second, "country-hash-collision", x.name);
        std::string full = geography::country_name(*x.code);
        vmon::check(c, "C17", !full.empty() && names.insert(full).second, "country-name", x.name, " is called ", full);
        c.touch(x.name); vmon::distinct(vmon::hash_string(x.name));
    }
    vmon::event("countries", all_countries().size());
#define JURISDICTION(S, T) {                                                                                                       \
        std::ostringstream s, t; s << law::jurisdictions::S.sovereign; t << law::jurisdictions::S.tender;                            \
        vmon::check(c, "C17", s.str() == #S && t.str() == #T, "jurisdiction", #S, " is ", s.str(), " with tender ", t.str());        \
        vmon::check(c, "C17", law::jurisdictions::S.tender == currencies::T, "jurisdiction-tender", #S);                             \
        vmon::check(c, "C17", std::hash<law::jurisdiction>()(law::jurisdictions::S) == std::hash<geography::iso_3166_1_alpha_2>()(geography::countries::S), "jurisdiction-hash", #S); \
        vmon::event("jurisdictions"); }
#include "constants.inc"
#undef JURISDICTION
}
SECTION(code_construction, ({"C17", "C34"}), 20000, 300000)
{
    auto letter = [&](char &x) { bool ok = c.r.chance(0.75); x = ok ? char('A' + c.r.below(26)) : c.r.chance(0.5) ? c.r.pick({'@', '[', 'a', 'z', '0', ' ', '`', '{', '\0', char(0xC3), char(0xFF), char(0x80)}) : char(c.r.below(256)); };
    {
        std::array<char, 3> s; for(auto &x : s) letter(x);
        bool valid = true; for(char x : s) valid &= x >= 'A' && x <= 'Z';
        u64 den = c.r.pick({u64(1), u64(100), u64(1000), u64(10), u64(1) << 40});
        bool thrown = false;
        try {
            iso_4217 k(s, den); std::ostringstream o; o << k;
            vmon::check(c, "C17", valid, "bad-currency-code-accepted", o.str());
            vmon::check(c, "C17", o.str() == std::string(s.data(), 3) && k.denominator == den && k.code == s, "currency-code-changed", o.str());
            iso_4217 k2(k), k3; k3 = k;
            vmon::check(c, "C17", k2 == k && k3 == k && !(k2 != k) && std::hash<iso_4217>()(k2) == std::hash<iso_4217>()(k), "currency-copy");
            std::array<char, 3> t; for(auto &x : t) x = char('A' + c.r.below(26)); if(c.r.chance(0.6)) { t = s; t[c.r.below(3)] = char('A' + c.r.below(26)); }
            iso_4217 j(t, den);
            std::string ss(s.data(), 3), ts(t.data(), 3);
            vmon::check(c, "C17", (k == j) == (ss == ts) && (k < j) == (ss < ts) && (j < k) == (ts < ss), "currency-order-random", ss, " ", ts);
            vmon::check(c, "C17", (std::hash<iso_4217>()(k) == std::hash<iso_4217>()(j)) == (ss == ts), "currency-hash-random", ss, " ", ts);
            iso_4217 other(s, den * 10); vmon::check(c, "C17", other != k && !(other == k), "currency-with-other-unit-equal", ss);
        } catch(const std::exception &) { thrown = true; }
        vmon::check(c, "C17", thrown == !valid, "currency-code-refusal", std::string(s.data(), 3), " ", thrown);
        vmon::event(valid ? "valid currency codes" : "bad currency codes");
        if(valid) vmon::check(c, "C17", vmon::throws([&] { iso_4217 k(s, 0); }), "zero-denominator-accepted");
        c.touch(std::string(s.data(), 3));
    }
    {
        std::array<char, 2> s; for(auto &x : s) letter(x);
        bool valid = true; for(char x : s) valid &= x >= 'A' && x <= 'Z';
        bool thrown = false;
        try { geography::iso_3166_1_alpha_2 k(s); vmon::check(c, "C17", k.code == s && k.representation() == std::string(s.data(), 2), "country-code-changed"); } catch(const std::exception &) { thrown = true; }
        vmon::check(c, "C17", thrown == !valid, "country-code-refusal", std::string(s.data(), 2), " ", thrown);
        std::string t(c.r.below(5), 'A'); for(auto &x : t) letter(x);
        if(c.r.chance(0.5)) t = std::string(s.data(), 2);
        bool ok = t.size() == 2; for(char x : t) ok &= x >= 'A' && x <= 'Z';
        thrown = false;
        try { geography::iso_3166_1_alpha_2 k(t); std::ostringstream o; o << k; vmon::check(c, "C17", o.str() == t, "country-string-changed"); } catch(const std::exception &) { thrown = true; }
        vmon::check(c, "C17", thrown == !ok, "country-string-refusal", t, " ", thrown);
        vmon::event(ok ? "valid country codes" : "bad country codes");
    }
}
REQUIRE_EVENT("C17", "valid market codes");
REQUIRE_EVENT("C17", "bad market codes");
SECTION(market_codes, ({"C17", "C34"}), 20000, 300000)
{
    auto symbol = [&] {
        if(c.r.chance(.9)) { auto x = c.r.below(36); return x < 26 ? char('A' + x) : char('0' + x - 26); }
        return c.r.chance(.7) ? c.r.pick({'@', '[', 'a', 'z', '/', ':', ' ', '`', '{', '-', '\0', char(0xC3), char(0xFF), char(0x80)}) : char(c.r.below(256));
    };
    auto well_formed = [](const std::string &s) { bool ok = s.size() == 4; for(char x : s) ok &= (x >= 'A' && x <= 'Z') || (x >= '0' && x <= '9'); return ok; };
    std::string s(c.r.chance(.8) ? 4 : c.r.below(9), 'A'); for(auto &x : s) x = symbol();
    std::string t = s;
    if(t.empty() || c.r.chance(.2)) { t.assign(4, 'A'); for(auto &x : t) x = symbol(); } else if(c.r.chance(.8)) t[c.r.below(t.size())] = symbol();
    std::vector<std::shared_ptr<markets::iso_10383>> codes; std::vector<std::string> texts;
    for(auto &x : {s, t}) {
        std::shared_ptr<markets::iso_10383> a, b; bool array = x.size() == 4, refused = false;
        bool thrown = vmon::throws([&] { a = std::make_shared<markets::iso_10383>(x); });
        vmon::check(c, "C17", thrown == !well_formed(x), "market-code-refusal", x, " ", thrown);
        if(array) {
            std::array<char, 4> y{x[0], x[1], x[2], x[3]};
            refused = vmon::throws([&] { b = std::make_shared<markets::iso_10383>(y); });
            vmon::check(c, "C17", refused == !well_formed(x), "market-array-refusal", x, " ", refused);
            if(b) vmon::check(c, "C17", b->code == y, "market-array-changed", x);
            if(a && b) vmon::check(c, "C17", *a == *b && !(*a != *b) && std::hash<markets::iso_10383>()(*a) == std::hash<markets::iso_10383>()(*b), "market-code-twice", x);
        }
        if(a) { std::ostringstream o; o << *a; vmon::check(c, "C17", a->representation() == x && o.str() == x, "market-code-text", x, " printed ", o.str()); codes.push_back(a); texts.push_back(x); }
        vmon::event(a ? "valid market codes" : "bad market codes");
    }
    if(codes.size() == 2) {
        auto &a = *codes[0], &b = *codes[1]; auto &p = texts[0], &q = texts[1];
        vmon::check(c, "C17", (a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "market-code-order", p, " ", q);
        if(p == q) vmon::check(c, "C17", std::hash<markets::iso_10383>()(a) == std::hash<markets::iso_10383>()(b), "market-code-hash", p);
        c.touch(p);
    }
}
SECTION(money_conversions, ({"C17", "C34"}), 6000, 100000)
{
    auto &x = c.r.pick(all_currencies()); auto &y = c.r.chance(0.2) ? x : c.r.pick(all_currencies());
    cash a(x.code), b(y.code), a2(x.code);
    money m(x.code), n(y.code);
    bool same = std::string(x.name) == y.name;
    u64 q = q_amount(c);
    c.note(x.name, " ", y.name, " ", q);
    // any whole number of minor units a price can hold
    if(u64 w = q >> 1; true) vmon::check(c, "C17", a.price(quantity(w)).value == i64(w) && m.price(quantity(w)).value == i64(w) && m.price(quantity(w)).valuation == x.code, "quantity-to-price", x.name, " ", w);
    q &= (u64(1) << 53) - 1;
    price p = a.price(quantity(q));
    vmon::check(c, "C17", p.value == i64(q) && p.valuation == x.code, "quantity-to-price", x.name, " ", q);
    vmon::check(c, "C17", u64(p.value) == q && m.price(quantity(q)) == p, "price-to-quantity");
    double real = double(p);
    if(q < (u64(1) << 50)) {
        u64 back = a.amount(real).amount;
        vmon::check(c, "C17", (back > q ? back - q : q - back) <= 1, "amount-of-decimal", real, " ", q, " ", back);
        u64 exact = a.amount(real, [](double v) { return u64(std::llround(v)); }).amount;
        vmon::check(c, "C17", exact == q, "amount-of-decimal-rounded", real, " ", q, " ", exact);
        vmon::check(c, "C17", a.price(real, [](double v) { return i64(std::llround(v)); }) == p && std::abs(a.price(real).value - i64(q)) <= 1, "price-of-decimal", real);
        vmon::check(c, "C17", a.price(-real, [](double v) { return i64(std::llround(v)); }) == -p, "price-of-negative-decimal", real);
    }
    double f = c.r.real(0, 1e6);
    vmon::check(c, "C17", std::abs((long double)a.amount(f).amount - (long double)f * x.minor) < 1 && (long double)a.amount(f).amount <= (long double)f * x.minor + 1e-6L, "amount-truncates", f);
    vmon::check(c, "C17", (a == b) == same && (m == n) == same && (m != n) == !same, "money-equality", x.name, " ", y.name);
    vmon::check(c, "C17", (a.identifier == b.identifier) == same && a.identifier == a2.identifier, "cash-identity", x.name, " ", y.name);
    vmon::check(c, "C17", (std::hash<cash>()(a) == std::hash<cash>()(b)) || !same, "cash-hash", x.name, " ", y.name);
    vmon::check(c, "C17", (std::hash<identity<law::property>>()(a.identifier) == std::hash<identity<law::property>>()(b.identifier)) || !same, "cash-identity-hash");
    vmon::check(c, "C17", a.denomination == x.code && a.name().find(x.name) != std::string::npos && m.name().find(x.name) != std::string::npos, "money-name", a.name());
    vmon::check(c, "C17", a.is_fungible(), "cash-not-fungible");
    c.touch(vmon::hash_combine(vmon::hash_string(x.name), q));
    vmon::event("conversions", 8);
}
REQUIRE_EVENT("C17", "currencies");
REQUIRE_EVENT("C17", "countries");
REQUIRE_EVENT("C17", "jurisdictions");
REQUIRE_EVENT("C17", "bad currency codes");
VMON_MAIN
