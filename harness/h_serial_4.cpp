#include "serial.hpp"
namespace {
SECTION(records_2, ({"C31", "C34"}), 450, 20000)
{
    switch(c.r.below(8)) {
    case 0: plain<law::government>(c, "government"); break;
    case 1: kinds<country>(c, "country", [&](bool x) { return std::make_unique<country>(x ? some_country(c.r) : country()); }); break;
    case 2: kinds<law::natural_person>(c, "natural-person", [&](bool x) { return std::make_unique<law::natural_person>(x ? some_country(c.r) : country()); }); break;
    case 3: kinds<law::jurisdiction>(c, "jurisdiction", [&](bool x) { iso_4217 t; if(x) make(c.r, t); return std::make_unique<law::jurisdiction>(x ? some_country(c.r) : country(), t); }); break;
    case 4: kinds<law::iso_17442>(c, "legal-entity-identifier", [&](bool x) { return std::make_unique<law::iso_17442>(some_code<4>(c.r, x), some_code<12>(c.r, x)); }); break;
    case 5: kinds<simulation::parameter::constant<int>>(c, "constant", [&](bool x) { auto p = std::make_unique<simulation::parameter::constant<int>>(7); if(x) make(c.r, *p); return p; }); break;
    case 6: kinds<simulation::parameter::constant<double>>(c, "real-constant", [&](bool x) { auto p = std::make_unique<simulation::parameter::constant<double>>(7.); if(x) make(c.r, *p); return p; }); break;
    case 7: kinds<simulation::parameter::categorical<int>>(c, "categorical", [&](bool x) { auto p = std::make_unique<simulation::parameter::categorical<int>>(std::vector<int>{3}); if(x) make(c.r, *p); return p; }); break;
    }
}
}
