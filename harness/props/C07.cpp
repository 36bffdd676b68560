// Invalid or conflicting declarations are always rejected, valid ones never.
#include <algorithm>
#include <cctype>
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    using namespace spec;
    using argos::ArgosException;

    char lower(char c)
    {
        return c >= 'A' && c <= 'Z' ? char(c + 32) : c;
    }

    bool same(const std::string& a, const std::string& b, bool ci)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (a[i] != b[i] && !(ci && lower(a[i]) == lower(b[i])))
                return false;
        }
        return true;
    }

    // What the documentation forbids.
    void rules(const Cmd& c, const Parser& p, bool top, Strings& bad)
    {
        const char prefix = p.style == Style::SLASH ? '/' : '-';
        if (!top && c.name.empty())
            bad.push_back("nameless command");
        if (!c.args.empty() && !c.cmds.empty())
            bad.push_back("both arguments and sub-commands");
        if (c.require.value_or(false) && c.cmds.empty())
            bad.push_back("required sub-command, but there are none");
        for (auto& a : c.args)
        {
            if (a.name.empty())
                bad.push_back("nameless argument");
            if (a.set_count && (a.hi == 0 || a.lo > a.hi))
                bad.push_back("bad argument count");
        }
        Strings flags;
        for (auto& o : c.opts)
        {
            if (o.flags.empty())
                bad.push_back("option without flags");
            for (auto& f : o.flags)
            {
                if (f.size() < 2 || f[0] != prefix)
                    bad.push_back("flag without prefix or letter");
                else if (f.find_first_of(" \t\r\n") != std::string::npos)
                    bad.push_back("flag with white space");
                else if (f.size() > 2 && p.style == Style::STANDARD && f[1] != '-')
                    bad.push_back("long flag with a single dash");
                else if (f.size() > 2)
                {
                    const auto eq = f.find('=');
                    if (eq != std::string::npos && eq + 1 < f.size())
                        bad.push_back("'=' inside a flag");
                    else if (eq != std::string::npos && o.argument.empty())
                        bad.push_back("'=' after the flag of an option without argument");
                }
                for (auto& g : flags)
                {
                    if (same(f, g, p.ci))
                        bad.push_back("conflicting flags");
                }
                flags.push_back(f);
            }
            if (!o.argument.empty() && !o.constant.empty())
                bad.push_back("both argument and constant");
            const auto op = o.set_op ? o.op : Op::ASSIGN;
            if (op == Op::APPEND && o.argument.empty() && o.constant.empty())
                bad.push_back("APPEND without argument and constant");
            if (op == Op::CLEAR && o.mandatory)
                bad.push_back("mandatory CLEAR option");
            if (op == Op::NONE && (!o.constant.empty() || !o.alias.empty()))
                bad.push_back("NONE option with constant or alias");
        }
        for (auto& sub : c.cmds)
            rules(sub, p, false, bad);
    }

    void all_commands(Cmd& c, std::vector<Cmd*>& out)
    {
        out.push_back(&c);
        for (auto& s : c.cmds)
            all_commands(s, out);
    }

    // Breaks (or merely changes) one thing somewhere in the command tree.
    void change(pbt::Src& s, Parser& p)
    {
        std::vector<Cmd*> cmds;
        all_commands(p.cmd, cmds);
        auto& c = *cmds[cmds.size() - 1 - s.draw(cmds.size())];
        auto opt = [&]() -> Opt*
        {
            if (c.opts.empty())
            {
                Opt o;
                o.flags = {p.style == Style::SLASH ? "/q" : "-q"};
                c.opts.push_back(o);
            }
            return &c.opts[s.draw(c.opts.size())];
        };
        static const Strings FLAGS = {
            "", "-", "/", "--", "//", "x", "file", "-ab", "--a=b", "--=x", "--=", "--x=", "/x=", "/a=b",
            "-x=", "-x=y", "/ab", "-a b", "--a\tb", "- ", "/ ", "--\n", "/\r", "-\xc3\xa9", "--\xc3\xa9",
            "\xc3\xa9", "+x", "--ok", "/ok", "-o", "/o", " -x", "--x ", "---", "--a--b", "=", "/a b", "-a=b=",
            "--a=b=", "--=="};
        switch (s.draw(18))
        {
        case 16: // The flag of an automatic option, perhaps with other case
        {
            auto f = s.pick(Strings{"-h", "--help", "/?", "-help", "/help", "--version", "-version", "/version"});
            if (s.chance(60))
                f = gen::random_case(s, f);
            if (s.chance(40))
                p.ci = true;
            opt()->flags.push_back(f);
            break;
        }
        case 0: opt()->flags.push_back(s.pick(FLAGS)); break;
        case 1: // Same flag again, perhaps with other case
        {
            auto& from = *opt();
            if (from.flags.empty())
                break;
            auto f = s.pick(from.flags);
            if (s.chance(50))
                f = gen::random_case(s, f);
            opt()->flags.push_back(f);
            break;
        }
        case 2:
        {
            auto& o = *opt();
            o.argument = "A";
            o.constant = "C";
            break;
        }
        case 3:
        {
            auto& o = *opt();
            o.argument.clear();
            o.constant.clear();
            o.set_op = true;
            o.op = Op::APPEND;
            break;
        }
        case 4:
        {
            auto& o = *opt();
            if (!o.argument.empty() || !o.constant.empty())
                break;
            o.set_op = true;
            o.op = Op::CLEAR;
            o.mandatory = s.chance(70);
            break;
        }
        case 5:
            if (!c.args.empty())
                c.args[s.draw(c.args.size())].name.clear();
            break;
        case 6:
            if (!c.cmds.empty())
                c.cmds[s.draw(c.cmds.size())].name.clear();
            break;
        case 7:
            if (c.args.empty())
            {
                Arg a;
                a.name = "ARG";
                c.args.push_back(a);
            }
            else
            {
                Cmd sub;
                sub.name = "sub";
                c.cmds.push_back(sub);
            }
            break;
        case 8:
            if (!c.args.empty())
            {
                auto& a = c.args[s.draw(c.args.size())];
                a.set_count = true;
                a.lo = unsigned(s.draw(4));
                a.hi = unsigned(s.draw(4));
                a.set_optional.reset();
            }
            break;
        case 9: c.require = true; break;
        case 10:
        {
            auto& o = *opt();
            o.set_op = true;
            o.op = Op::NONE;
            o.argument.clear();
            o.initial.clear();
            o.mandatory = false;
            (s.chance(50) ? o.constant : o.alias) = "K";
            break;
        }
        case 11: opt()->flags.clear(); break;
        case 12: p.ci = !p.ci; break;
        case 13: // legal
            opt()->help = "text";
            break;
        case 14:
        {
            auto& o = *opt();
            for (auto& f : o.flags)
            {
                if (f.size() > 2)
                    f += "=";
            }
            break;
        }
        case 15: // A flag that is a letter away from another one
        {
            auto& o = *opt();
            if (!o.flags.empty())
            {
                auto f = s.pick(o.flags);
                if (f.size() > 2)
                {
                    f.pop_back();
                    o.flags.push_back(f);
                }
            }
            break;
        }
        default: // The other style's flags
            opt()->flags.push_back(p.style == Style::SLASH ? "-k" : "/k");
            break;
        }
    }

    template <typename F>
    std::string rejected_by(const char* what, F&& f)
    {
        try
        {
            f();
        }
        catch (const ArgosException&)
        {
            return {};
        }
        return what;
    }

    void declarations(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.sub = 45;
        cfg.special = 10;
        cfg.max_opts = 3;
        cfg.version = 15;
        cfg.texts = 10;
        auto p = gen::parser(s, cfg);
        p.line_width = 80;
        const int n = s.count(2, 75);
        for (int i = 0; i < n; ++i)
            change(s, p);
        // Mandatory NONE options and CLEAR options with arguments are neither
        // forbidden nor explained.
        Strings bad;
        rules(p.cmd, p, true, bad);
        check::describe(c, p, {});
        c.desc << "forbidden: " << pbt::quote_all(bad) << "\n";
        for (auto& b : bad)
            c.label("forbidden: " + b);
        c.label_if(bad.empty(), "valid");
        c.nontrivial = !p.cmd.opts.empty() || !p.cmd.cmds.empty() || !p.cmd.args.empty();
        std::ostringstream ss;
        std::optional<argos::ArgumentParser> parser;
        try
        {
            parser = build::make_parser(p, &ss);
        }
        catch (const ArgosException& e)
        {
            if (bad.empty())
                pbt::fail(std::string("a valid declaration was rejected: ") + e.what());
            c.label("rejected when added");
            return;
        }
        const auto& cp = *parser;
        const auto tokens = s.chance(50) ? Strings{} : Strings{"a", p.style == Style::SLASH ? "/x" : "-x"};
        const auto args = build::views(tokens);
        if (bad.empty())
        {
            try
            {
                cp.write_help_text();
                (void)cp.parse(args);
                (void)cp.make_iterator(args);
                (void)parser->parse(args);
            }
            catch (const ArgosException& e)
            {
                pbt::fail(std::string("a valid declaration was rejected: ") + e.what());
            }
            return;
        }
        c.label("rejected when parsing starts");
        auto r = rejected_by("const parse", [&] { (void)cp.parse(args); });
        if (r.empty())
            r = rejected_by("const make_iterator", [&] { (void)cp.make_iterator(args); });
        if (r.empty())
            r = rejected_by("write_help_text", [&] { cp.write_help_text(); });
        if (r.empty())
        {
            if (s.chance(50))
                r = rejected_by("parse", [&] { (void)parser->parse(args); });
            else
                r = rejected_by("make_iterator", [&] { (void)parser->make_iterator(args); });
        }
        if (!r.empty())
            pbt::fail("a forbidden declaration (" + bad.front() + ") was accepted by " + r);
    }

    // Declarations put together with copy_from.
    void copies(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.max_depth = 1;
        cfg.sub = 45;
        cfg.max_opts = 3;
        cfg.style = 0;
        cfg.version = 0;
        auto p = gen::parser(s, cfg);
        p.line_width = 80;
        auto q = gen::parser(s, cfg);
        q.cmd.require.reset();
        if (s.chance(30))
        {
            p.cmd.texts[Text::ABOUT] = "about";
            p.cmd.texts[Text::FINAL_TEXT] = "final";
        }
        if (s.chance(30))
            q.cmd.texts[s.chance(50) ? Text::ABOUT : Text::INITIAL_TEXT] = "copied";
        const bool nested = s.chance(40);
        auto all = p;
        auto join = [](Cmd& a, const Cmd& b)
        {
            a.args.insert(a.args.end(), b.args.begin(), b.args.end());
            a.opts.insert(a.opts.end(), b.opts.begin(), b.opts.end());
            a.cmds.insert(a.cmds.end(), b.cmds.begin(), b.cmds.end());
            a.multi = a.multi || b.multi;
        };
        bool clash = false;
        for (auto& [id, t] : q.cmd.texts)
            clash = clash || p.cmd.texts.contains(id);
        join(all.cmd, q.cmd);
        Strings bad;
        rules(all.cmd, all, true, bad);
        if (clash)
            bad.push_back("text copied over another one");
        check::describe(c, p, {});
        c.desc << "copy from: " << describe(q) << (nested ? "nested" : "") << "\nforbidden: "
               << pbt::quote_all(bad) << "\n";
        c.label(bad.empty() ? "copied, valid" : "copied, forbidden");
        c.nontrivial = true;
        std::ostringstream ss;
        bool ok = true;
        try
        {
            auto src = build::make_command(q.cmd);
            argos::ArgumentParser parser("prog");
            build::apply_settings(parser, p, &ss);
            if (nested)
            {
                Cmd named = p.cmd;
                named.name = "sub";
                auto sub = build::make_command(named);
                sub.copy_from(src);
                parser.add(sub);
            }
            else
            {
                build::apply_contents(parser, p);
                parser.copy_from(src);
            }
            (void)parser.parse(std::vector<std::string_view>());
        }
        catch (const ArgosException& e)
        {
            c.desc << e.what() << "\n";
            ok = false;
        }
        if (ok != bad.empty())
            pbt::fail(ok ? "a forbidden declaration was accepted" : "a valid declaration was rejected");
    }

    // Moved-from objects refuse to be used.
    void moved_from(pbt::Src& s, pbt::Case& c)
    {
        using namespace argos;
        const int what = int(s.draw(8));
        const int use = int(s.draw(12));
        c.desc << "moved-from object " << what << ", use " << use << "\n";
        c.label("moved-from object");
        c.nontrivial = true;
        std::string r;
        if (what < 2)
        {
            Argument a("A");
            ArgumentParser p("prog");
            if (what == 0)
                p.add(a);
            else
                Argument b(std::move(a));
            Argument copy(a);
            auto& x = s.chance(50) ? a : copy;
            r = rejected_by("Argument", [&]
            {
                switch (use)
                {
                case 0: x.help("t"); break;
                case 1: x.section("t"); break;
                case 2: x.alias("t"); break;
                case 3: x.callback({}); break;
                case 4: x.visibility(Visibility::NORMAL); break;
                case 5: x.id(1); break;
                case 6: x.name("t"); break;
                case 7: x.optional(); break;
                case 8: x.count(2); break;
                case 9: x.count(0, 2); break;
                case 10: x.mandatory(); break;
                default: p.add(x); break;
                }
            });
        }
        else if (what < 4)
        {
            Option a("-a");
            ArgumentParser p("prog");
            if (what == 2)
                p.add(a);
            else
                Option b(std::move(a));
            Option copy(a);
            auto& x = s.chance(50) ? a : copy;
            r = rejected_by("Option", [&]
            {
                switch (use)
                {
                case 0: x.help("t"); break;
                case 1: x.section("t"); break;
                case 2: x.alias("t"); break;
                case 3: x.callback({}); break;
                case 4: x.visibility(Visibility::NORMAL); break;
                case 5: x.id(1); break;
                case 6: x.flag("-b"); break;
                case 7: x.optional(); break;
                case 8: x.argument("N"); break;
                case 9: x.constant("N"); break;
                case 10: x.type(OptionType::STOP); break;
                default: p.add(x); break;
                }
            });
        }
        else if (what < 6)
        {
            Command a("a");
            ArgumentParser p("prog");
            if (what == 4)
                p.add(a);
            else
                Command b(std::move(a));
            Command copy(a);
            auto& x = s.chance(50) ? a : copy;
            Command other("o");
            r = rejected_by("Command", [&]
            {
                switch (use)
                {
                case 0: x.help("t"); break;
                case 1: x.section("t"); break;
                case 2: x.about("t"); break;
                case 3: x.add(Argument("A")); break;
                case 4: x.visibility(Visibility::NORMAL); break;
                case 5: x.id(1); break;
                case 6: x.add(Option("-b")); break;
                case 7: x.add(Command("c")); break;
                case 8: x.require_subcommand(true); break;
                case 9: x.allow_multiple_subcommands(true); break;
                case 10: x.copy_from(other); break;
                default:
                    if (s.chance(50))
                        p.add(x);
                    else
                        other.copy_from(x);
                    break;
                }
            });
        }
        else
        {
            ArgumentParser p("prog");
            std::ostringstream ss;
            p.stream(&ss);
            if (what == 6)
                ArgumentParser q(std::move(p));
            else
                (void)p.parse(std::vector<std::string_view>());
            const auto& cp = p;
            r = rejected_by("ArgumentParser", [&]
            {
                switch (use)
                {
                case 0: p.add(Argument("A")); break;
                case 1: p.add(Option("-b")); break;
                case 2: p.add(Command("c")); break;
                case 3: (void)p.parse(std::vector<std::string_view>()); break;
                case 4: (void)cp.parse(std::vector<std::string_view>()); break;
                case 5: (void)p.make_iterator(std::vector<std::string_view>()); break;
                case 6: p.write_help_text(); break;
                case 7: p.copy_from(Command("c")); break;
                case 8: p.about("t"); break;
                case 9: p.line_width(10); break;
                case 10: (void)p.program_name(); break;
                default: (void)cp.make_iterator(std::vector<std::string_view>()); break;
                }
            });
        }
        if (!r.empty())
            pbt::fail("a moved-from " + r + " was used without an exception");
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        const auto mode = s.draw(20);
        if (mode < 15)
            declarations(s, c);
        else if (mode < 19)
            copies(s, c);
        else
            moved_from(s, c);
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C07",
        "75%: a random valid declaration with 0-2 random changes (malformed or clashing flags, "
        "combinations of argument, constant and operation, names, counts, mixes of arguments and "
        "sub-commands...) anywhere in the command tree; an independent list of the documented rules "
        "says whether it must be rejected, by add or by every way to start parsing, or accepted. "
        "20%: the same with declarations put together by copy_from. 5%: uses of moved-from "
        "objects. Non-trivial: the declaration isn't empty.",
        600000, 2500000, run};
    return p;
}
