// Running the library and comparing it with the reference model.
#pragma once
#include <optional>
#include "build.hpp"
#include "engine.hpp"
#include "model.hpp"
#include "spec.hpp"

namespace check
{
    struct Run
    {
        spec::Node node;
        std::string output;
        std::optional<std::string> exception; // an ArgosException
    };

    /// Parses with a parser made from 'p' (not finished).
    Run run(const spec::Parser& p, const spec::Parser& finished,
            const spec::Strings& tokens, const build::HooksPtr& hooks = {});

    /// First difference between the two, "" if there is none.
    std::string diff(const spec::Node& expected, const spec::Node& actual,
                     const std::string& path = {});
    /// Only command names and result codes.
    std::string diff_codes(const spec::Node& expected, const spec::Node& actual,
                           const std::string& path = {});

    bool has_space(const spec::Strings& tokens);

    /// Throws Fail if the run isn't what the model says, Discard if the
    /// model says that the case is unspecified.
    void compare(const model::Parsed& m, const Run& r, const spec::Strings& tokens);

    /// Describes the case, runs and compares; returns the model's view.
    model::Parsed model_check(const spec::Parser& p, const spec::Strings& tokens,
                              pbt::Case& c);

    void describe(pbt::Case& c, const spec::Parser& p, const spec::Strings& tokens);

    /// Labels for statistics.
    void label(pbt::Case& c, const model::Parsed& m);
}
