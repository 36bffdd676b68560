// What a help text must consist of.
#pragma once
#include <string>
#include "layout.hpp"
#include "spec.hpp"

namespace help
{
    /// Finds the (finished) command and its full name; nullptr if there is
    /// none.
    const spec::Cmd* find(const spec::Parser& finished, const spec::Strings& path,
                          std::string& full_name);

    /// The section of each argument, option and sub-command, "" if it has
    /// none of its own.
    struct Sections
    {
        spec::Strings args, opts, cmds;
    };

    Sections sections(const spec::Cmd& cmd);

    /// The usage section. 'error': as shown after error messages.
    layout::Paragraphs usage(const spec::Cmd& cmd, const std::string& full_name, bool error);

    /// The complete help text. Each text starts on the same line as its
    /// label ('beside'), or on the next line.
    layout::Paragraphs text(const spec::Cmd& cmd, const std::string& full_name, bool beside);
}
