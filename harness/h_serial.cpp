#include "serial.hpp"
namespace {
SECTION(numbers_1, ({"C31", "C34"}), 450, 20000)
{
    switch(c.r.below(6)) {
    case 0: plain<identity<agent>>(c, "identity"); break;
    case 1: plain<quantity>(c, "quantity"); break;
    case 2: plain<iso_4217>(c, "currency"); break;
    case 3: plain<price>(c, "price"); break;
    case 4: kinds<economics::rate<u64>>(c, "rate", [&](bool x) { return std::make_unique<economics::rate<u64>>(x ? wide(c.r) : 1, x ? positive(c.r) : u64(1)); }); break;
    case 5: kinds<economics::rate<std::int64_t>>(c, "signed-rate", [&](bool x) { auto p = std::make_unique<economics::rate<std::int64_t>>(std::int64_t(1), std::int64_t(1)); if(x) make(c.r, *p); return p; }); break;
    }
}
}
REQUIRE_EVENT("C31", "round-trips");
REQUIRE_EVENT("C31", "mixed-archives");
VMON_MAIN
