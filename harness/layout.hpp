// Matches text that has been laid out against the words it's made of.
#pragma once
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace layout
{
    using Words = std::vector<std::string>;
    /// The words between two explicit line breaks.
    using Paragraph = Words;
    using Paragraphs = std::vector<Paragraph>;

    bool is_valid_utf8(std::string_view s);
    size_t code_points(std::string_view s);

    /// Splits a text at line breaks ("\n", "\r\n" and "\r") and blanks (space
    /// and tab).
    Paragraphs paragraphs(std::string_view text);
    Words words(std::string_view text);
    std::vector<std::string> lines(std::string_view text);
    std::string lower(std::string_view s);

    /// Where a word may be split: offset and whether a hyphen is inserted.
    using SplitPoints = std::vector<std::pair<size_t, bool>>;
    using Rules = std::map<std::string, SplitPoints>;

    /// From the rules given to ArgumentParser::add_word_splitting_rule.
    Rules rules(const std::vector<std::string>& split_rules);

    struct Options
    {
        unsigned width;
        /// Words are only split where it's allowed (otherwise: anywhere, as
        /// needed for usage texts, where several words can be a single unit).
        bool strict = true;
        /// Ignore blank lines and empty paragraphs
        bool ignore_blank = false;
        const Rules* rules = nullptr;
        /// The text isn't valid UTF-8, the size of a character is between one
        /// column and one for each byte.
        bool invalid = false;
    };

    struct Stats
    {
        int lines = 0;
        int wrapped = 0;     // line breaks that were inserted
        int split_words = 0; // may be slightly more than there are
        int too_wide = 0;    // lines with a unit that doesn't fit
        int tight = 0;       // lines that are exactly as wide as they can be
    };

    /// Returns an empty string if 'output' is 'expected' with line breaks,
    /// indentation and hyphens inserted, otherwise what is wrong.
    std::string match(const Paragraphs& expected, const std::string& output,
                      const Options& options, Stats* stats = nullptr);
}
