#include "serial.hpp"
namespace {
SECTION(mixed_archives_binary, ({"C31", "C34"}), 70, 2700)
{
    mixed<binary>(c);
}
}
