// Text layout never loses text, breaks UTF-8 or exceeds the line width.
#include "../check.hpp"
#include "../gen.hpp"
#include "../layout.hpp"
#include <fcntl.h>
#include <iostream>
#include <optional>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <unistd.h>

namespace
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;

    const Strings RULES = {
        "inter nation al iza tion", "super cali fragil istic expi ali docious",
        "well- known", "multi- part- hyphen ated- word", "op tion", "Lorem", "f ile", "va lue",
        "\xc3\xa9t \xc3\xa9", "na\xc3\xafv e", "\xe6\x97\xa5 \xe6\x9c\xac \xe8\xaa\x9e",
        "(paren thesis", "ab cd ef gh ij kl mn", "a- b- c- d", "some thing"};

    const Strings INVALID = {"\xe6", "\xff", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xa4\xb8",
                             "\xc0\x80", "\xf8\x88\x80\x80\x80"};

    // Texts in other encodings than UTF-8
    bool invalid_text = false;

    std::string random_word(pbt::Src& s)
    {
        static const Strings PARTS = {
            "a", "bc", "def", "Ghijkl", "1", "23", "4567", "-", "--", ".", ",", "/", "(", ")", "[", "]",
            "<", ">", "=", "\xc3\xa6", "\xc3\xb8\xc3\xa5", "\xe2\x82\xac", "\xe6\x97\xa5\xe6\x9c\xac",
            "\xf0\x9f\x98\x80", "_", "x", "'", "\"", "!", "\x7f", "\v", "z",
            "\xc2\xa1", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xef\xbf\xbd", "\xf0\x90\x80\x80",
            "\xf3\xa0\x80\x81", "\xf4\x80\x80\x80", "\xf4\x8f\xbf\xbf"};
        static const Strings RULED = {
            "internationalization", "supercalifragilisticexpialidocious", "well-known", "Well-Known,",
            "multi-part-hyphenated-word", "option", "Option.", "OPTION:", "lorem", "file", "value",
            "\xc3\xa9t\xc3\xa9", "na\xc3\xafve", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e",
            "(parenthesis)", "abcdefghijklmn", "AbcdefGhijklmn...", "a-b-c-d", "something", "Something!"};
        if (s.chance(25))
            return s.pick(RULED);
        if (s.chance(30))
            return gen::word(s);
        if (s.chance(10))
            return s.pick(Strings{"-", "*", "1.", "12.", ".", "--", "1", "123456."});
        std::string w;
        const int n = 1 + s.count(s.chance(20) ? 30 : 6, 75);
        for (int i = 0; i < n; ++i)
            w += invalid_text && s.chance(15) ? s.pick(INVALID) : s.pick(PARTS);
        return w;
    }

    std::string random_text(pbt::Src& s, int max_words)
    {
        std::string r;
        const int n = s.range(0, max_words);
        if (s.chance(8))
            r += s.pick(Strings{" ", "  ", "      ", "\t", "\n", "            ", "\n\n", "\r\n"});
        for (int i = 0; i < n; ++i)
        {
            if (i > 0)
            {
                if (s.chance(14))
                    r += s.pick(Strings{"\n", "\n\n", "\r\n", "\r", "\n  ", "\n- ", "\n* ", "\n12. ",
                                        " \n", "\n  - ", "\n    1. ", "\n\t", "\n           "});
                else if (s.chance(10))
                    r += s.pick(Strings{"  ", "\t", " \t", "\t ", "          ", "   "});
                else
                    r += " ";
            }
            r += random_word(s);
        }
        if (s.chance(10))
            r += s.pick(Strings{" ", "\n", "\n\n", "\t", "\r\n", "\r", "     "});
        return r;
    }

    unsigned random_width(pbt::Src& s)
    {
        switch (s.draw(4))
        {
        case 0: return unsigned(s.range(3, 12));
        case 1: return unsigned(s.range(10, 40));
        case 2: return unsigned(s.range(3, 130));
        default: return unsigned(s.range(20, 80));
        }
    }

    /// The words of what write_custom_text() writes.
    void add_custom(layout::Paragraphs& out, const std::string& text)
    {
        auto p = layout::paragraphs(text);
        // The line isn't ended twice
        if (p.back().empty())
            p.pop_back();
        out.insert(out.end(), p.begin(), p.end());
    }

    struct Setup
    {
        unsigned width;
        Strings split_rules;
        layout::Rules rules;
        std::string name;
    };

    argos::ArgumentParser new_parser(const Setup& setup, std::ostream& out)
    {
        argos::ArgumentParser parser(setup.name, false);
        parser.auto_exit(false).stream(&out).line_width(setup.width).generate_help_option(false);
        for (auto& r : setup.split_rules)
            parser.add_word_splitting_rule(r);
        return parser;
    }

    void check_match(const layout::Paragraphs& expected, const std::string& output,
                     const Setup& setup, bool ignore_blank, pbt::Case& c, const layout::Paragraphs* other = nullptr)
    {
        layout::Stats stats;
        layout::Options o{setup.width, true, ignore_blank, &setup.rules, invalid_text};
        c.label_if(invalid_text, "invalid UTF-8");
        auto error = layout::match(expected, output, o, &stats);
        if (!error.empty() && other)
        {
            stats = {};
            const auto error2 = layout::match(*other, output, o, &stats);
            if (error2.empty())
                error.clear();
            else
                error += "; or: " + error2;
        }
        if (!error.empty())
            fail(error + "\n--- output ---\n" + output + "--- end ---");
        c.label_if(stats.wrapped > 0, "wrapped");
        c.label_if(stats.split_words > 0, "split words");
        c.label_if(stats.too_wide > 0, "unit wider than the line");
        c.label_if(stats.tight > 0, "full lines");
        c.nontrivial = c.nontrivial || stats.wrapped > 0;
    }

    void run_texts(pbt::Src& s, pbt::Case& c, const Setup& setup)
    {
        using argos::TextId;
        std::ostringstream out;
        auto parser = new_parser(setup, out);
        parser.text(TextId::USAGE, "");
        layout::Paragraphs expected;
        bool single = true;
        // What is written before a text doesn't influence how it's laid out.
        std::optional<std::string> separate;
        auto alone = [&](const std::string& text)
        {
            std::ostringstream stream;
            auto q = new_parser(setup, stream);
            q.text(TextId::USAGE, "").text(TextId::INITIAL_TEXT, text).write_help_text();
            return stream.str();
        };
        if (s.chance(60))
        {
            const auto t = random_text(s, 25);
            c.desc << "text: " << quote(t) << "\n";
            const bool final_text = s.chance(20);
            parser.text(final_text ? TextId::FINAL_TEXT : s.pick(std::vector<TextId>{
                            TextId::INITIAL_TEXT, TextId::ABOUT, TextId::HELP}), t);
            if (final_text && !t.empty())
                expected.emplace_back();
            add_custom(expected, t);
        }
        else
        {
            single = false;
            const auto t1 = random_text(s, 10), t2 = random_text(s, 10), t3 = random_text(s, 10),
                       t4 = random_text(s, 4);
            c.desc << "texts: " << quote(t1) << "\n" << quote(t2) << "\n" << quote(t3) << "\n" << quote(t4)
                   << "\n";
            parser.text(TextId::INITIAL_TEXT, t1).text(TextId::ABOUT, t2).text(TextId::FINAL_TEXT, t3);
            add_custom(expected, t1);
            if (!t4.empty() && s.chance(50))
            {
                parser.text(TextId::USAGE, t4).text(TextId::USAGE_TITLE, t2);
                add_custom(expected, t2);
                add_custom(expected, t4);
            }
            else
            {
                separate = alone(t1);
                if (!t2.empty())
                    *separate += (t1.empty() ? "" : "\n") + alone(t2);
                if (!t3.empty())
                    *separate += "\n" + alone(t3);
                c.extra_evaluations = 3;
            }
            add_custom(expected, t2);
            add_custom(expected, t3);
        }
        parser.write_help_text();
        check_match(expected, out.str(), setup, !single, c);
        if (separate && *separate != out.str())
            fail("the texts are laid out differently together:\n" + out.str() + "--- separately ---\n"
                 + *separate + "--- end ---");
        c.label("custom texts");
    }

    void run_labels(pbt::Src& s, pbt::Case& c, const Setup& setup)
    {
        using argos::TextId;
        std::ostringstream out;
        auto parser = new_parser(setup, out);
        parser.text(TextId::USAGE, "");
        layout::Paragraphs beside, below;
        const bool argument = s.chance(40);
        std::string title = argument ? "ARGUMENTS" : "OPTIONS";
        if (s.chance(30))
        {
            title = random_text(s, 4);
            parser.text(argument ? TextId::ARGUMENTS_TITLE : TextId::OPTIONS_TITLE, title);
        }
        c.desc << "title: " << quote(title) << "\n";
        beside = below = layout::paragraphs(title);
        const int n = argument ? 1 : s.range(1, 3);
        for (int i = 0; i < n; ++i)
        {
            std::string label;
            const auto help = random_text(s, s.chance(50) ? 4 : 15);
            if (argument)
            {
                auto name = random_word(s);
                if (s.chance(15))
                    name += " " + random_word(s);
                parser.add(argos::Argument(name).help(help));
                label = name[0] == '<' || name[0] == '[' ? name : "<" + name + ">";
            }
            else
            {
                auto flag = "--" + s.pick(Strings{"file", "internationalization", "x", "well-known",
                                                  "\xc3\xa9t\xc3\xa9", "a/b/c", "12345"});
                flag += std::to_string(i);
                const auto arg = s.chance(50) ? random_word(s) : "";
                argos::Option o(flag);
                o.help(help);
                label = flag;
                if (!arg.empty())
                {
                    o.argument(arg);
                    label += " " + (arg[0] == '<' ? arg : "<" + arg + ">");
                }
                parser.add(o);
            }
            c.desc << "label " << quote(label) << " text " << quote(help) << "\n";
            const auto lp = layout::words(label);
            auto hp = layout::paragraphs(help);
            below.push_back(lp);
            below.insert(below.end(), hp.begin(), hp.end());
            hp[0].insert(hp[0].begin(), lp.begin(), lp.end());
            beside.insert(beside.end(), hp.begin(), hp.end());
        }
        try
        {
            parser.write_help_text();
        }
        catch (const argos::ArgosException& e)
        {
            pbt::discard(std::string("rejected: ") + e.what());
        }
        check_match(beside, out.str(), setup, true, c, &below);
        c.label("labels and texts");
    }

    /// The same text is laid out in the same way in error messages.
    void run_error_usage(pbt::Src& s, pbt::Case& c, const Setup& setup)
    {
        using argos::TextId;
        const auto text = random_text(s, 15);
        c.desc << "error usage: " << quote(text) << "\n";
        std::ostringstream out1, out2;
        auto parser1 = new_parser(setup, out1);
        parser1.text(TextId::USAGE, "").text(TextId::INITIAL_TEXT, text);
        parser1.write_help_text();
        auto parser2 = new_parser(setup, out2);
        parser2.program_name("p").text(TextId::ERROR_USAGE, text);
        try
        {
            parser2.parse(std::vector<std::string_view>{}).error("");
        }
        catch (const argos::ArgosException&)
        {}
        auto expected = out1.str(), actual = out2.str();
        const auto eol = actual.find('\n');
        if (eol == std::string::npos)
            fail("the error message has no line break: " + quote(actual));
        actual.erase(0, eol + 1);
        // An empty text would have been replaced by the usage
        if (!text.empty() && actual != expected)
            fail("the error usage is\n" + actual + "--- expected ---\n" + expected + "--- end ---");
        c.nontrivial = std::count(expected.begin(), expected.end(), '\n') > 1;
        c.label("error usage");
    }

    void run_errors(pbt::Src& s, pbt::Case& c, const Setup& setup)
    {
        if (s.chance(30))
        {
            run_error_usage(s, c, setup);
            return;
        }
        std::ostringstream out;
        auto parser = new_parser(setup, out);
        parser.text(argos::TextId::ERROR_USAGE, "");
        const auto msg = random_text(s, 15);
        c.desc << "error: " << quote(msg) << "\n";
        std::string prefix = setup.name;
        const int how = int(s.draw(3));
        try
        {
            if (how == 0)
            {
                parser.parse(std::vector<std::string_view>{}).error(msg);
            }
            else if (how == 1)
            {
                parser.add(argos::Option("-f", "--file").argument("F"));
                auto args = parser.parse(std::vector<std::string_view>{"-f", "x"});
                prefix += ": -f, --file";
                args.value("-f").error(msg);
            }
            else
            {
                // Sub-commands have the program's name first
                parser.add(argos::Command("sub command").text(argos::TextId::ERROR_USAGE, ""));
                auto args = parser.parse(std::vector<std::string_view>{"sub command"});
                prefix += " sub command";
                args.subcommands().at(0).error(msg);
            }
        }
        catch (const argos::ArgosException&)
        {}
        check_match(layout::paragraphs(prefix + ": " + msg), out.str(), setup, false, c);
        c.label("error messages");
    }

    void run_whole(pbt::Src& s, pbt::Case& c, const Setup& setup)
    {
        gen::Cfg cfg;
        cfg.texts = 70;
        cfg.version = 20;
        cfg.max_opts = 8;
        auto p = gen::parser(s, cfg);
        if (s.chance(70))
            p.cmd.name = setup.name;
        p.split_rules = setup.split_rules;
        if (s.chance(40))
        {
            for (int i = 0; i < 3; ++i)
                p.cmd.texts[Text(s.draw(10))] = random_text(s, 8);
        }
        for (auto& cmd : p.cmd.cmds)
        {
            if (s.chance(20))
                cmd.name = random_word(s);
        }
        for (auto& a : p.cmd.args)
        {
            if (s.chance(20))
                a.name = random_word(s);
            if (s.chance(20))
                a.name += " " + random_word(s);
        }
        for (auto& o : p.cmd.opts)
        {
            if (!o.argument.empty() && s.chance(30))
                o.argument = s.chance(50) ? random_word(s) : random_word(s) + " " + random_word(s);
        }
        c.desc << describe(p);
        Strings path;
        if (!p.cmd.cmds.empty() && s.chance(40))
            path.push_back(s.pick(p.cmd.cmds).name);
        const bool error = s.chance(25);
        auto write = [&](unsigned width)
        {
            std::ostringstream out;
            auto q = p;
            q.line_width = width;
            try
            {
                auto parser = build::make_parser(q, &out);
                if (error)
                    (void)parser.parse(std::vector<std::string_view>{"--undefined option", "x"});
                else
                    parser.write_subcommand_help_text(path);
            }
            catch (const argos::ArgosException& e)
            {
                pbt::discard(std::string("rejected"));
            }
            return out.str();
        };
        const auto wide = write(1000000);
        const auto narrow = write(setup.width);
        layout::Stats stats;
        auto d = layout::match({layout::words(wide)}, narrow, {setup.width, false, true, &setup.rules, invalid_text}, &stats);
        if (!d.empty())
            fail(d + "\n--- output ---\n" + narrow + "--- wide output ---\n" + wide + "--- end ---");
        c.extra_evaluations = 1;
        c.label(error ? "whole error messages" : "whole help texts");
        c.nontrivial = stats.lines > 5;
    }

    // Without a line width of its own, a help text is as wide as the terminal.
    struct Terminal
    {
        int master = -1, slave = -1, saved = -1;

        explicit Terminal(unsigned columns)
        {
            master = posix_openpt(O_RDWR | O_NOCTTY);
            if (master >= 0 && grantpt(master) == 0 && unlockpt(master) == 0)
                slave = open(ptsname(master), O_RDWR | O_NOCTTY);
            winsize ws{};
            ws.ws_col = static_cast<unsigned short>(columns);
            ws.ws_row = 25;
            if (slave < 0 || ioctl(slave, TIOCSWINSZ, &ws) != 0)
            {
                close_all();
                pbt::discard("no terminals");
            }
            std::cout.flush();
            fflush(stdout);
            saved = dup(1);
            dup2(slave, 1);
        }

        ~Terminal()
        {
            dup2(saved, 1);
            close_all();
        }

        void close_all() const
        {
            for (const int fd : {master, slave, saved})
            {
                if (fd >= 0)
                    close(fd);
            }
        }
    };

    void run_terminal(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.texts = 70;
        auto p = gen::parser(s, cfg);
        p.cmd.name = "prog";
        p.cmd.texts[Text::INITIAL_TEXT] = random_text(s, 60) + " " + random_text(s, 40);
        const auto columns = unsigned(s.chance(10) ? 0 : s.chance(20) ? s.range(1, 40) : s.range(30, 200));
        const auto width = columns == 0 ? 80 : std::max(columns, 32u);
        c.desc << "terminal with " << columns << " columns\n" << describe(p);
        const bool error = s.chance(25);
        auto write = [&](unsigned line_width)
        {
            std::ostringstream out;
            p.line_width = line_width;
            try
            {
                auto parser = build::make_parser(p, &out);
                if (error)
                    (void)parser.parse(std::vector<std::string_view>{"--undefined option", "x"});
                else
                    parser.write_help_text();
            }
            catch (const argos::ArgosException& e)
            {
                pbt::discard("rejected");
            }
            return out.str();
        };
        const auto expected = write(width);
        std::string actual;
        {
            Terminal terminal(columns);
            actual = write(0);
        }
        if (actual != expected)
            fail("on a terminal with " + std::to_string(columns) + " columns:\n" + actual
                 + "--- expected ---\n" + expected + "--- end ---");
        c.label("terminals");
        c.nontrivial = true;
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        if (s.chance(3))
        {
            run_terminal(s, c);
            return;
        }
        Setup setup;
        invalid_text = s.chance(6);
        setup.width = random_width(s);
        if (s.chance(50))
        {
            const int n = s.range(1, 6);
            for (int i = 0; i < n; ++i)
                setup.split_rules.push_back(s.pick(RULES));
        }
        setup.rules = layout::rules(setup.split_rules);
        setup.name = s.chance(60) ? "prog" : s.chance(50) ? random_word(s) : random_word(s) + random_word(s);
        c.desc << "width " << setup.width << " rules " << pbt::quote_all(setup.split_rules) << " name "
               << quote(setup.name) << "\n";
        switch (s.draw(5))
        {
        case 0:
        case 1:
            run_texts(s, c, setup);
            break;
        case 2:
            run_labels(s, c, setup);
            break;
        case 3:
            run_errors(s, c, setup);
            break;
        default:
            run_whole(s, c, setup);
            break;
        }
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C17",
        "Random texts (words of letters, digits, punctuation and multi-byte characters, long words, "
        "list markers, tabs, repeated spaces, every kind of line break), line widths from 3 up and "
        "word-splitting rules, shown as help texts, argument and option texts and error messages, "
        "and whole help texts of random declarations: the output is matched, line by line, against "
        "the original words (whole help texts: against the same help text on very wide lines). "
        "Non-trivial: at least one line break was inserted (whole help texts: more than 5 lines).",
        600000, 4000000, run};
    return p;
}
