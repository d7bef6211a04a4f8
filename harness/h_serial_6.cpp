#include "serial.hpp"
namespace {
SECTION(messages_1, ({"C31", "C34"}), 300, 12500)
{
    switch(c.r.below(4)) {
    case 0: plain<interaction::header>(c, "header"); break;
    case 1: plain<interaction::transfer>(c, "transfer"); break;
    case 2: plain<economics::markets::logout_message>(c, "logout"); break;
    case 3: plain<economics::markets::order_status_request_message>(c, "order-status-request"); break;
    }
}
}
