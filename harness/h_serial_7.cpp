#include "serial.hpp"
namespace {
SECTION(messages_2, ({"C31", "C34"}), 300, 12500)
{
    switch(c.r.below(4)) {
    case 0: plain<economics::markets::walras::quote_message>(c, "quote-message"); break;
    case 1: plain<dividend_policy>(c, "dividend-policy"); break;
    case 2: plain<dividend_announcement_message>(c, "dividend-announcement"); break;
    case 3: plain<dividend_record>(c, "dividend-record"); break;
    }
}
}
