#include "serial.hpp"
namespace {
SECTION(mixed_archives_xml, ({"C31", "C34"}), 70, 2700)
{
    mixed<xml>(c);
}
}
