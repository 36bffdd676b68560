// Nothing makes the library crash, hang or throw other exceptions than
// ArgosException: arbitrary use of the public API with arbitrary strings.
#include "../api.hpp"

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C19",
        "Random sequences of calls of the public API (declarations, settings, copies, moves, parsing, "
        "iterating, help, reading and converting values, callbacks that do the same and insert arguments) "
        "with arbitrary byte strings, under address and undefined behaviour sanitizers and library "
        "assertions, with random choices and with coverage-guided choices (libFuzzer). Anything but a normal return "
        "or ArgosException is a failure. Evaluations are API calls. Non-trivial: at least one command line "
        "was parsed.",
        200000, 6000000,
        [](Src& s, Case& c) { build::api_case(s, c); }};
    return p;
}
