#include "serial.hpp"
namespace {
SECTION(entities, ({"C31", "C34"}), 300, 12000)
{
    auto id = [&](bool x) { identity<law::property> i; if(x) make(c.r, i); return i; };
    switch(c.r.below(5)) {
    case 0: kinds<law::property>(c, "property", [&](bool x) { return std::make_unique<law::property>(id(x)); }); break;
    case 1: kinds<economics::asset>(c, "asset", [&](bool x) { return std::make_unique<economics::asset>(id(x)); }); break;
    case 2: {   // a loaded entity goes on where the saved one stopped: its next child has the same identity
        law::property a(id(true)), b(id(true)); int n = int(c.r.below(20)); for(int i = 0; i < n; ++i) (void)a.create<agent>(); for(u64 i = c.r.below(4); i--;) (void)b.create<agent>();
        std::stringstream s; { boost::archive::text_oarchive o(s); const law::property &k = a; o << k; } { boost::archive::text_iarchive i(s); i >> b; }
        vmon::check(c, {"C31"}, show(a.create<agent>()) == show(b.create<agent>()), "next-child-after-loading", n);
        vmon::event("round-trips"); c.touch(show(a) + std::to_string(n)); break; }
    case 3: {   // shared properties: loaded amounts and identities
        plain<filter>(c, "holdings"); break; }
    default: kinds<simulation::world>(c, "world", [&](bool) { return std::make_unique<simulation::world>(); });
    }
}
}
