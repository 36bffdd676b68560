// Turns declarations (spec.hpp) into library objects using the public API
// only. Can be compiled for the amalgamated edition as well:
// -DBUILD_NS=ssbuild -Dargos=argos_ss.
#pragma once
#include <functional>
#include <memory>
#include <ostream>
#include <sstream>
#include <Argos/Argos.hpp>
#include "spec.hpp"

#ifndef BUILD_NS
#define BUILD_NS build
#endif

namespace BUILD_NS
{
    struct Hooks
    {
        // path: names of the commands, from the program's name downwards,
        // each followed by a slash; index: of the definition in its command.
        std::function<void(const std::string& path, int index,
                           argos::OptionCallbackArguments&)> option;
        std::function<void(const std::string& path, int index,
                           argos::ArgumentCallbackArguments&)> argument;
        std::function<void(argos::OptionCallbackArguments&)> any_option;
        std::function<void(argos::ArgumentCallbackArguments&)> any_argument;

        // Called with each object just before and after it's added as an
        // lvalue (objects are added as rvalues if there are none of these).
        std::function<void(argos::Argument&, bool added)> tweak_argument;
        std::function<void(argos::Option&, bool added)> tweak_option;
        std::function<void(argos::Command&, const spec::Cmd& cmd, bool added)> tweak_command;
    };

    using HooksPtr = std::shared_ptr<Hooks>;

    argos::Argument make_argument(const spec::Arg& a, const std::string& path = {},
                                  int index = 0, const HooksPtr& hooks = {});
    argos::Option make_option(const spec::Opt& o, const std::string& path = {},
                              int index = 0, const HooksPtr& hooks = {});
    argos::Command make_command(const spec::Cmd& c, const std::string& path = {},
                                const HooksPtr& hooks = {});

    /// Everything but the contents of the top-level command.
    void apply_settings(argos::ArgumentParser& parser, const spec::Parser& p,
                        std::ostream* stream, const HooksPtr& hooks = {});
    void apply_contents(argos::ArgumentParser& parser, const spec::Parser& p,
                        const HooksPtr& hooks = {});

    argos::ArgumentParser make_parser(const spec::Parser& p, std::ostream* stream,
                                      const HooksPtr& hooks = {});

    /// What a parse result looks like through the public API. 'cmd' is the
    /// finished declaration (model::finish) of the command.
    spec::Node observe(const argos::ParsedArguments& args, const spec::Cmd& cmd,
                       bool ci);

    std::string view_name(const argos::IArgumentView* view);

    std::vector<std::string_view> views(const spec::Strings& tokens);
}
