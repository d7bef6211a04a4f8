#include "serial.hpp"
namespace {
SECTION(mixed_archives_text, ({"C31", "C34"}), 70, 2700)
{
    mixed<text>(c);
}
}
