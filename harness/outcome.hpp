// Everything a user can observe about a declaration and a command line, as
// one text. Compiled for both editions of the library.
#pragma once
#include <string>
#include <Argos/Argos.hpp>
#include "spec.hpp"

#ifndef BUILD_NS
#define BUILD_NS build
#endif

namespace BUILD_NS
{
    /// Everything that can be read from a parse result. Conversion errors
    /// are written to the parser's stream.
    std::string transcript(const argos::ParsedArguments& args);

    std::string outcome(const spec::Parser& p, const spec::Strings& tokens);

    /// What every conversion makes of these values.
    std::string conversions(const spec::Strings& values);

    /// A program that parses its command line and reads the values.
    void program(const spec::Parser& p, const spec::Strings& argv, std::ostream* stream);
}
