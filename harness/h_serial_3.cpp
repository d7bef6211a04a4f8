#include "serial.hpp"
namespace {
SECTION(records_1, ({"C31", "C34"}), 450, 20000)
{
    switch(c.r.below(8)) {
    case 0: plain<share_class>(c, "share-class"); break;
    case 1: plain<std::tuple<int, double, std::string>>(c, "tuple"); break;
    case 2: plain<std::tuple<u64, price>>(c, "tuple-price"); break;
    case 3: plain<std::tuple<bool, quantity, identity<agent>, std::tuple<double, std::int64_t>>>(c, "nested-tuple"); break;
    case 4: plain<computation::agent_timing>(c, "timing"); break;
    case 5: plain<computation::distributed::activation>(c, "activation"); break;
    case 6: plain<computation::distributed::migration>(c, "migration"); break;
    case 7: plain<computation::distributed::deactivation>(c, "deactivation"); break;
    }
}
}
