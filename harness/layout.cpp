#include "layout.hpp"
#include <cstdint>
#include <set>
#include <tuple>
#include "engine.hpp"

namespace layout
{
    using pbt::quote;

    bool is_valid_utf8(std::string_view s)
    {
        for (size_t i = 0; i < s.size();)
        {
            const auto c = uint8_t(s[i]);
            const size_t n = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0;
            if (n == 0 || i + n > s.size())
                return false;
            for (size_t j = 1; j < n; ++j)
            {
                if ((uint8_t(s[i + j]) & 0xC0) != 0x80)
                    return false;
            }
            i += n;
        }
        return true;
    }

    size_t code_points(std::string_view s)
    {
        size_t n = 0;
        for (const char c : s)
            n += (uint8_t(c) & 0xC0) != 0x80;
        return n;
    }

    std::string lower(std::string_view s)
    {
        std::string r(s);
        for (auto& c : r)
        {
            if (c >= 'A' && c <= 'Z')
                c = char(c + 32);
        }
        return r;
    }

    std::vector<std::string> lines(std::string_view text)
    {
        std::vector<std::string> r{""};
        for (size_t i = 0; i < text.size(); ++i)
        {
            if (text[i] == '\n')
                r.emplace_back();
            else if (text[i] == '\r')
            {
                if (i + 1 < text.size() && text[i + 1] == '\n')
                    ++i;
                r.emplace_back();
            }
            else
                r.back() += text[i];
        }
        return r;
    }

    Words words(std::string_view text)
    {
        Words r;
        bool in_word = false;
        for (const char c : text)
        {
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r')
            {
                in_word = false;
                continue;
            }
            if (!in_word)
                r.emplace_back();
            in_word = true;
            r.back() += c;
        }
        return r;
    }

    Paragraphs paragraphs(std::string_view text)
    {
        Paragraphs r;
        for (auto& line : lines(text))
            r.push_back(words(line));
        return r;
    }

    Rules rules(const std::vector<std::string>& split_rules)
    {
        Rules r;
        for (auto& rule : split_rules)
        {
            std::string word;
            SplitPoints points;
            for (const char c : rule)
            {
                if (c == ' ')
                    points.emplace_back(word.size(), word.empty() || word.back() != '-');
                else
                    word += c;
            }
            r.emplace(lower(word), points); // The first one counts
        }
        return r;
    }

    namespace
    {
        struct State
        {
            size_t paragraph, word, offset;

            auto operator<=>(const State&) const = default;
        };

        const SplitPoints* find_rule(const Rules* rules, const std::string& word)
        {
            if (!rules)
                return nullptr;
            const auto last = word.find_last_not_of(".,;:!?()[]{}<>\"'`");
            const auto it = rules->find(lower(word.substr(0, last + 1)));
            return it == rules->end() ? nullptr : &it->second;
        }
    }

    std::string match(const Paragraphs& expected_in, const std::string& output,
                      const Options& options, Stats* stats)
    {
        Paragraphs expected;
        for (auto& p : expected_in)
        {
            if (!options.ignore_blank || !p.empty())
                expected.push_back(p);
        }
        if (output.find('\r') != std::string::npos || output.find('\t') != std::string::npos)
            return "the output contains carriage returns or tabs";
        auto out = lines(output);
        if (!out.back().empty())
            return "the output doesn't end with a newline";
        out.pop_back();

        std::set<State> states{{0, 0, 0}};
        size_t number = 0;
        for (auto& line : out)
        {
            ++number;
            const auto where = "line " + std::to_string(number) + " " + quote(line) + ": ";
            if (!options.invalid && !is_valid_utf8(line))
                return where + "a multi-byte character has been cut";
            const auto width = code_points(line);
            auto indent = line.find_first_not_of(' ');
            if (indent == std::string::npos)
                indent = line.size();
            const auto pieces = words(line);
            if (stats)
                stats->lines++;
            if (width > options.width)
            {
                // Three columns are needed to split a unit
                if (options.width - std::min<size_t>(indent, options.width) > 2)
                    return where + "wider than " + std::to_string(options.width);
                if (options.strict && pieces.size() > 1)
                    return where + "several words, but wider than " + std::to_string(options.width);
                if (stats)
                    stats->too_wide++;
            }
            if (stats && width == options.width)
                stats->tight++;
            if (pieces.empty() && options.ignore_blank)
                continue;

            std::set<State> next;
            for (auto state : states)
            {
                // At a new line: the previous paragraph may have ended
                if (state.paragraph < expected.size()
                    && state.word == expected[state.paragraph].size()
                    && (state.word > 0 || state.offset > 0))
                {
                    state = {state.paragraph + 1, 0, 0};
                }
                if (state.paragraph >= expected.size())
                    continue;
                auto& para = expected[state.paragraph];
                if (pieces.empty())
                {
                    // A blank line is an empty paragraph, marked by an offset
                    if (para.empty() && state.offset == 0)
                        next.insert({state.paragraph, 0, 1});
                    continue;
                }
                if (para.empty())
                    continue;
                // All pieces but the last are whole words, or the rest of one
                bool ok = true;
                for (size_t i = 0; i + 1 < pieces.size() && ok; ++i)
                {
                    ok = state.word < para.size()
                         && pieces[i] == std::string_view(para[state.word]).substr(state.offset);
                    state.word++;
                    state.offset = 0;
                }
                if (!ok || state.word >= para.size())
                {
                    if (!ok || options.strict || pieces.back() != "-")
                        continue;
                }
                const auto& piece = pieces.back();
                if (state.word >= para.size())
                    continue;
                const auto& word = para[state.word];
                const auto rest = word.substr(state.offset);
                if (piece == rest)
                    next.insert({state.paragraph, state.word + 1, 0});
                auto may_split = [&](size_t length, bool hyphen)
                {
                    if (!options.strict)
                        return true;
                    if (auto points = find_rule(options.rules, word))
                    {
                        for (auto& [offset, h] : *points)
                        {
                            if (offset == state.offset + length && h == hyphen)
                                return true;
                        }
                    }
                    // The word doesn't fit on a line of its own
                    return pieces.size() == 1
                           && (options.invalid ? rest.size() : code_points(rest)) + indent > options.width;
                };
                if (piece.size() < rest.size() && rest.compare(0, piece.size(), piece) == 0
                    && may_split(piece.size(), false))
                    next.insert({state.paragraph, state.word, state.offset + piece.size()});
                if (piece.back() == '-')
                {
                    const auto n = piece.size() - 1;
                    if (n > 0 && n < rest.size() && rest.compare(0, n, piece, 0, n) == 0
                        && may_split(n, true))
                        next.insert({state.paragraph, state.word, state.offset + n});
                    if (!options.strict && rest.compare(0, n, piece, 0, n) == 0)
                    {
                        if (n == rest.size())
                            next.insert({state.paragraph, state.word + 1, 0});
                        else if (n == 0)
                            next.insert({state.paragraph, state.word, state.offset});
                    }
                }
            }
            if (next.empty())
            {
                std::string was;
                for (auto& st : states)
                {
                    was += " paragraph " + std::to_string(st.paragraph) + " word "
                           + std::to_string(st.word) + " offset " + std::to_string(st.offset) + ";";
                }
                return where + "doesn't follow from the text; matched so far:" + was;
            }
            if (stats)
            {
                stats->split_words += next.begin()->offset > 0 && !pieces.empty();
                stats->wrapped += next.begin()->paragraph < expected.size()
                                  && next.begin()->word < expected[next.begin()->paragraph].size();
            }
            states = std::move(next);
        }
        for (auto& st : states)
        {
            if (st.paragraph == expected.size() && st.word == 0 && st.offset == 0)
                return {};
            if (st.paragraph + 1 == expected.size())
            {
                auto& para = expected.back();
                if (para.empty() ? st.offset == 1 : st.word == para.size())
                    return {};
            }
        }
        if (expected.empty() && out.empty())
            return {};
        return "the end of the text is missing";
    }
}
