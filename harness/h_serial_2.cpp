#include "serial.hpp"
namespace {
SECTION(numbers_2, ({"C31", "C34"}), 450, 20000)
{
    switch(c.r.below(7)) {
    case 0: plain<economics::exchange_rate>(c, "exchange-rate"); break;
    case 1: plain<economics::interest_rate>(c, "interest-rate"); break;
    case 2: plain<quote>(c, "quote"); break;
    case 3: plain<mathematics::interval<int, true, false>>(c, "interval"); break;
    case 4: plain<mathematics::interval<double, false, true>>(c, "real-interval"); break;
    case 5: plain<simulation::time_interval>(c, "time-interval"); break;
    case 6: plain<std::vector<identity<law::property>>>(c, "identities"); break;
    }
}
}
