// Arbitrary use of the public API. Compiled for both editions of the library.
#pragma once
#include <string>
#include "engine.hpp"

#ifndef BUILD_NS
#define BUILD_NS build
#endif

namespace BUILD_NS
{
    /// Makes random calls; everything but ArgosException leaves this
    /// function. What the calls return, throw and write is added to the log.
    void api_case(pbt::Src& s, pbt::Case& c, std::string* log = nullptr);
}
