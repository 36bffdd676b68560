// Generators of declarations and command lines.
#pragma once
#include <string>
#include <vector>
#include "engine.hpp"
#include "spec.hpp"

namespace gen
{
    /// Percentages unless stated otherwise.
    struct Cfg
    {
        int style = -1; // -1: any
        int ci = 15, abbrev = 20;
        int max_depth = 2; // levels of sub-commands
        int sub = 30;      // a command has sub-commands
        int multi = 40;
        int max_opts = 5, max_args = 3;
        int special = 20;  // option has a special type
        bool stop_types = true, last_types = true;
        int mandatory = 15, initial = 15, link = 20, append = 25, clear = 12, none = 10;
        int variable = 50; // argument count is variable
        int ignore_args = 10, ignore_opts = 10;
        int version = 10, no_help = 40;
        int require_set = 10;
        int callbacks = 0;
        int texts = 0;
        // Command lines
        int junk = 8;
        int mutate = 10;   // drop, repeat or swap tokens
        int misuse = 18;   // number of arguments out of range, missing things
        int use_special = 25;
        bool hostile_values = true; // values that look like options etc.
        int spaces = 3;    // values with white space
    };

    spec::Parser parser(pbt::Src& s, const Cfg& cfg);

    /// Adds texts, sections, visibilities and unusual names at every level.
    void decorate(pbt::Src& s, spec::Parser& p);

    /// One thing on the command line, independent of how it is spelt.
    struct Unit
    {
        char kind;  // 'o' option, 'a' argument, 'c' sub-command,
                    // 's' sibling command, 'j' a raw token
        int index;  // option or command; 's': index in the ancestor
        int level;  // 's': depth of the ancestor (0: top level)
        std::string value;
    };

    std::vector<Unit> units(pbt::Src& s, const spec::Parser& finished, const Cfg& cfg);

    struct SpellStats
    {
        int clusters = 0, attached = 0, equals = 0, separate = 0, abbreviated = 0,
            recased = 0;
    };

    /// The tokens of the unit with index 'break_after' end at '*break_pos'.
    spec::Strings spell(pbt::Src& s, const spec::Parser& finished,
                        const std::vector<Unit>& units, SpellStats* stats = nullptr,
                        size_t break_after = size_t(-1), size_t* break_pos = nullptr);

    /// units + spell
    spec::Strings tokens(pbt::Src& s, const spec::Parser& finished, const Cfg& cfg);

    /// A value (option argument or positional).
    std::string value(pbt::Src& s, const spec::Parser& p, bool positional, const Cfg& cfg);

    /// Words for texts: ASCII and multi-byte, short and long.
    std::string text(pbt::Src& s, int max_words, bool newlines);
    std::string word(pbt::Src& s);

    std::string random_case(pbt::Src& s, std::string t);
}
