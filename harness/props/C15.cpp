// Parsers and declarations are reusable, copyable and safe after a move.
#include <algorithm>
#include <optional>
#include "../check.hpp"
#include "../gen.hpp"
#include "../outcome.hpp"

namespace
{
    using namespace spec;
    using namespace argos;
    using pbt::fail;
    using pbt::quote;

    template <typename F>
    bool throws(F f)
    {
        try
        {
            f();
            return false;
        }
        catch (const ArgosException&)
        {
            return true;
        }
    }

    template <typename F>
    void must_throw(const char* what, F f)
    {
        if (!throws(f))
            fail(std::string(what) + " didn't throw an exception");
    }

    // ---- What happened -------------------------------------------------

    build::HooksPtr make_hooks(std::ostream& log)
    {
        auto hooks = std::make_shared<build::Hooks>();
        hooks->option = [&log](auto& path, int i, auto& a)
        {
            log << "<option callback " << path << i << " " << a.value << ">";
            if (a.value == "insert")
                a.new_arguments = {"inserted", "x"};
            if (a.value == "append" && a.view.operation() != OptionOperation::NONE)
                a.builder.append(a.view, "appended");
        };
        hooks->argument = [&log](auto& path, int i, auto& a)
        {
            log << "<argument callback " << path << i << " " << a.value << ">";
            if (a.value == "append")
                a.builder.append(a.view, "appended");
            if (a.value == "insert")
                a.new_arguments = {"inserted"};
        };
        hooks->any_option = [&log](auto& a) { log << "<option " << a.view.flags().front() << ">"; };
        hooks->any_argument = [&log](auto& a) { log << "<argument " << a.view.name() << ">"; };
        return hooks;
    }

    struct Outcome
    {
        std::string result;
        std::string output;

        friend bool operator==(const Outcome&, const Outcome&) = default;
    };

    void same(const std::string& what, const Outcome& expected, const Outcome& actual)
    {
        if (expected.result != actual.result)
            fail(what + ": the result differs\n--- expected ---\n" + expected.result
                 + "\n--- actual ---\n" + actual.result);
        if (expected.output != actual.output)
            fail(what + ": the output differs\n--- expected ---\n" + expected.output
                 + "\n--- actual ---\n" + actual.output);
    }

    std::string message(const ArgosException& e)
    {
        const std::string s = e.what();
        const auto pos = s.find(": ");
        return pos == std::string::npos ? s : s.substr(pos + 2);
    }

    /// Runs 'f', which returns a ParsedArguments, and says what was written
    /// meanwhile and what the result is.
    template <typename F>
    Outcome outcome(std::ostringstream& out, F f, std::optional<ParsedArguments>* keep = nullptr)
    {
        Outcome o;
        out.str({});
        try
        {
            ParsedArguments args = f();
            o.output = out.str();
            o.result = build::transcript(args);
            if (keep)
                *keep = args;
        }
        catch (const ArgosException& e)
        {
            o.output = out.str();
            o.result = "exception: " + message(e);
        }
        out.str({});
        return o;
    }

    std::string step_text(const IArgumentView* view, std::string_view value)
    {
        return "(" + build::view_name(view) + " " + quote(value) + ")";
    }

    /// Every step of an iterator, with what each wrote.
    struct Steps
    {
        std::vector<Outcome> steps;
        Outcome end; // result after the last step, and the last next()'s output
        bool failed = false;
    };

    /// One step: nothing if it was the last one.
    std::optional<Outcome> step(std::ostringstream& out, ArgumentIterator& it, Outcome& end)
    {
        out.str({});
        std::unique_ptr<IArgumentView> view;
        std::string_view value;
        const bool more = it.next(view, value);
        const auto text = out.str();
        out.str({});
        if (more)
            return Outcome{step_text(view.get(), value), text};
        end.output = text;
        end.result = build::transcript(it.parsed_arguments());
        out.str({});
        return std::nullopt;
    }

    struct World
    {
        const Parser& p;
        const Parser& f;
        std::vector<Strings> lines;
        bool argv_ok = true;
        std::vector<Strings> paths; // of sub-commands

        std::map<size_t, Outcome> parse_base;
        std::map<size_t, Steps> step_base;
        std::map<size_t, Outcome> help_base;

        /// What a new parser, used once, does.
        const Outcome& parsed(size_t line)
        {
            auto it = parse_base.find(line);
            if (it != parse_base.end())
                return it->second;
            std::ostringstream out;
            auto parser = build::make_parser(p, &out, make_hooks(out));
            return parse_base[line] = outcome(out, [&]
                { return parser.parse(build::views(lines[line])); });
        }

        const Steps& steps(size_t line)
        {
            auto it = step_base.find(line);
            if (it != step_base.end())
                return it->second;
            auto& s = step_base[line];
            std::ostringstream out;
            auto parser = build::make_parser(p, &out, make_hooks(out));
            auto iter = parser.make_iterator(build::views(lines[line]));
            while (auto o = step(out, iter, s.end))
            {
                s.steps.push_back(*o);
                if (s.steps.size() > 1000)
                    fail("iteration doesn't end");
            }
            return s;
        }

        const Outcome& help(size_t path)
        {
            auto it = help_base.find(path);
            if (it != help_base.end())
                return it->second;
            std::ostringstream out;
            const auto parser = build::make_parser(p, &out, make_hooks(out));
            Outcome o;
            try
            {
                if (paths[path].empty())
                    parser.write_help_text();
                else
                    parser.write_subcommand_help_text(paths[path]);
            }
            catch (const ArgosException& e)
            {
                o.result = message(e);
            }
            o.output = out.str();
            return help_base[path] = o;
        }
    };

    void find_paths(const spec::Cmd& c, Strings path, std::vector<Strings>& paths)
    {
        paths.push_back(path);
        for (auto& sub : c.cmds)
        {
            auto sub_path = path;
            sub_path.push_back(sub.name);
            find_paths(sub, sub_path, paths);
        }
    }

    /// The current section when everything has been added.
    std::string last_section(const spec::Cmd& c)
    {
        std::string current;
        auto look = [&](const Common& x)
        {
            if (x.cur_section)
                current = *x.cur_section;
        };
        for (auto& [kind, i] : c.order)
        {
            if (kind == 'a')
                look(c.args[size_t(i)]);
            else if (kind == 'o')
                look(c.opts[size_t(i)]);
            else
                look(c.cmds[size_t(i)]);
        }
        if (c.order.empty())
        {
            for (auto& x : c.args)
                look(x);
            for (auto& x : c.opts)
                look(x);
            for (auto& x : c.cmds)
                look(x);
        }
        return c.last_section.value_or(current);
    }

    std::vector<char*> make_argv(const char* name, const Strings& tokens)
    {
        std::vector<char*> argv{const_cast<char*>(name)};
        for (auto& t : tokens)
            argv.push_back(const_cast<char*>(t.c_str()));
        return argv;
    }

    // ---- Parsers that can't be used any more ---------------------------

    void check_unusable(pbt::Src& s, ArgumentParser& parser)
    {
        const auto& cp = parser;
        auto argv = make_argv("prog", {});
        std::vector<std::pair<const char*, std::function<void()>>> uses{
            {"add(Argument)", [&] { parser.add(Argument("A")); }},
            {"add(Option)", [&] { parser.add(Option("-a")); }},
            {"add(Command)", [&] { parser.add(Command("c")); }},
            {"copy_from", [&] { parser.copy_from(Command("c")); }},
            {"parse(argc, argv)", [&] { (void)parser.parse(1, argv.data()); }},
            {"const parse(argc, argv)", [&] { (void)cp.parse(1, argv.data()); }},
            {"parse", [&] { (void)parser.parse(std::vector<std::string_view>{}); }},
            {"const parse", [&] { (void)cp.parse(std::vector<std::string_view>{}); }},
            {"make_iterator(argc, argv)", [&] { (void)parser.make_iterator(1, argv.data()); }},
            {"const make_iterator(argc, argv)", [&] { (void)cp.make_iterator(1, argv.data()); }},
            {"make_iterator", [&] { (void)parser.make_iterator(std::vector<std::string_view>{}); }},
            {"const make_iterator", [&] { (void)cp.make_iterator(std::vector<std::string_view>{}); }},
            {"allow_abbreviated_options()", [&] { (void)cp.allow_abbreviated_options(); }},
            {"allow_abbreviated_options", [&] { parser.allow_abbreviated_options(true); }},
            {"auto_exit()", [&] { (void)cp.auto_exit(); }},
            {"auto_exit", [&] { parser.auto_exit(false); }},
            {"case_insensitive()", [&] { (void)cp.case_insensitive(); }},
            {"case_insensitive", [&] { parser.case_insensitive(true); }},
            {"generate_help_option()", [&] { (void)cp.generate_help_option(); }},
            {"generate_help_option", [&] { parser.generate_help_option(true); }},
            {"option_style()", [&] { (void)cp.option_style(); }},
            {"option_style", [&] { parser.option_style(OptionStyle::STANDARD); }},
            {"require_subcommand()", [&] { (void)cp.require_subcommand(); }},
            {"require_subcommand", [&] { parser.require_subcommand(false); }},
            {"allow_multiple_subcommands()", [&] { (void)cp.allow_multiple_subcommands(); }},
            {"allow_multiple_subcommands", [&] { parser.allow_multiple_subcommands(true); }},
            {"ignore_undefined_arguments()", [&] { (void)cp.ignore_undefined_arguments(); }},
            {"ignore_undefined_arguments", [&] { parser.ignore_undefined_arguments(true); }},
            {"ignore_undefined_options()", [&] { (void)cp.ignore_undefined_options(); }},
            {"ignore_undefined_options", [&] { parser.ignore_undefined_options(true); }},
            {"argument_callback()", [&] { (void)cp.argument_callback(); }},
            {"argument_callback", [&] { parser.argument_callback({}); }},
            {"option_callback()", [&] { (void)cp.option_callback(); }},
            {"option_callback", [&] { parser.option_callback({}); }},
            {"stream()", [&] { (void)cp.stream(); }},
            {"stream", [&] { parser.stream(nullptr); }},
            {"program_name()", [&] { (void)cp.program_name(); }},
            {"program_name", [&] { parser.program_name("x"); }},
            {"about", [&] { parser.about("x"); }},
            {"version", [&] { parser.version("x"); }},
            {"current_section()", [&] { (void)cp.current_section(); }},
            {"current_section", [&] { parser.current_section("x"); }},
            {"text", [&] { parser.text(TextId::ABOUT, "x"); }},
            {"text(callback)", [&] { parser.text(TextId::ABOUT, [] { return std::string("x"); }); }},
            {"line_width", [&] { parser.line_width(80); }},
            {"add_word_splitting_rule", [&] { parser.add_word_splitting_rule("wo rd"); }},
            {"set_exit_codes", [&] { parser.set_exit_codes(1, 2); }},
            {"write_help_text", [&] { cp.write_help_text(); }},
            {"write_subcommand_help_text", [&] { cp.write_subcommand_help_text({"x"}); }},
        };
        // All of them, starting anywhere
        const auto n = s.draw(uses.size());
        std::rotate(uses.begin(), uses.begin() + long(n), uses.end());
        for (auto& [name, use] : uses)
            must_throw(("an unusable parser: " + std::string(name)).c_str(), use);
    }

    void check_unusable(Argument& a)
    {
        must_throw("unusable argument: help", [&] { a.help("x"); });
        must_throw("unusable argument: help(callback)", [&] { a.help([] { return std::string("x"); }); });
        must_throw("unusable argument: section", [&] { a.section("x"); });
        must_throw("unusable argument: alias", [&] { a.alias("x"); });
        must_throw("unusable argument: callback", [&] { a.callback({}); });
        must_throw("unusable argument: visibility", [&] { a.visibility(Visibility::HIDDEN); });
        must_throw("unusable argument: id", [&] { a.id(1); });
        must_throw("unusable argument: name", [&] { a.name("x"); });
        must_throw("unusable argument: optional", [&] { a.optional(); });
        must_throw("unusable argument: mandatory", [&] { a.mandatory(); });
        must_throw("unusable argument: count", [&] { a.count(1); });
        must_throw("unusable argument: count(min, max)", [&] { a.count(1, 2); });
        must_throw("unusable argument: add", [&] { ArgumentParser("x").add(a); });
        must_throw("unusable argument: add to command", [&] { Command("x").add(a); });
        Argument b(a), c;
        c = a;
        must_throw("copy of unusable argument", [&] { b.id(1); });
        must_throw("copy of unusable argument", [&] { c.id(1); });
    }

    void check_unusable(Option& a)
    {
        must_throw("unusable option: help", [&] { a.help("x"); });
        must_throw("unusable option: help(callback)", [&] { a.help([] { return std::string("x"); }); });
        must_throw("unusable option: section", [&] { a.section("x"); });
        must_throw("unusable option: alias", [&] { a.alias("x"); });
        must_throw("unusable option: callback", [&] { a.callback({}); });
        must_throw("unusable option: visibility", [&] { a.visibility(Visibility::HIDDEN); });
        must_throw("unusable option: id", [&] { a.id(1); });
        must_throw("unusable option: operation", [&] { a.operation(OptionOperation::ASSIGN); });
        must_throw("unusable option: flag", [&] { a.flag("-x"); });
        must_throw("unusable option: flags", [&] { a.flags({"-x"}); });
        must_throw("unusable option: argument", [&] { a.argument("x"); });
        must_throw("unusable option: initial_value", [&] { a.initial_value("x"); });
        must_throw("unusable option: constant", [&] { a.constant("x"); });
        must_throw("unusable option: constant", [&] { a.constant(std::string("x")); });
        must_throw("unusable option: constant", [&] { a.constant(true); });
        must_throw("unusable option: constant", [&] { a.constant(1); });
        must_throw("unusable option: constant", [&] { a.constant(1LL); });
        must_throw("unusable option: type", [&] { a.type(OptionType::STOP); });
        must_throw("unusable option: optional", [&] { a.optional(); });
        must_throw("unusable option: mandatory", [&] { a.mandatory(); });
        must_throw("unusable option: add", [&] { ArgumentParser("x").add(a); });
        must_throw("unusable option: add to command", [&] { Command("x").add(a); });
        Option b(a), c;
        c = a;
        must_throw("copy of unusable option", [&] { b.id(1); });
        must_throw("copy of unusable option", [&] { c.id(1); });
    }

    void check_unusable(Command& a)
    {
        must_throw("unusable command: add(Argument)", [&] { a.add(Argument("A")); });
        must_throw("unusable command: add(Option)", [&] { a.add(Option("-a")); });
        must_throw("unusable command: add(Command)", [&] { a.add(Command("a")); });
        must_throw("unusable command: name", [&] { a.name("x"); });
        must_throw("unusable command: help", [&] { a.help("x"); });
        must_throw("unusable command: about", [&] { a.about("x"); });
        must_throw("unusable command: section", [&] { a.section("x"); });
        must_throw("unusable command: current_section", [&] { a.current_section("x"); });
        must_throw("unusable command: text", [&] { a.text(TextId::ABOUT, "x"); });
        must_throw("unusable command: text(callback)",
                   [&] { a.text(TextId::ABOUT, [] { return std::string("x"); }); });
        must_throw("unusable command: visibility", [&] { a.visibility(Visibility::HIDDEN); });
        must_throw("unusable command: id", [&] { a.id(1); });
        must_throw("unusable command: allow_multiple_subcommands",
                   [&] { a.allow_multiple_subcommands(true); });
        must_throw("unusable command: require_subcommand", [&] { a.require_subcommand(false); });
        must_throw("unusable command: copy_from", [&] { Command b("b"); a.copy_from(b); });
        must_throw("copying from unusable command", [&] { Command b("b"); b.copy_from(a); });
        must_throw("copying from unusable command", [&] { ArgumentParser("b").copy_from(a); });
        must_throw("unusable command: add", [&] { ArgumentParser("x").add(a); });
        must_throw("unusable command: add to command", [&] { Command("x").add(a); });
        Command b(a), c;
        c = a;
        must_throw("copy of unusable command", [&] { b.id(1); });
        must_throw("copy of unusable command", [&] { c.id(1); });
    }

    // ---- Copies of declarations ----------------------------------------

    void disturb(pbt::Src& s, Argument& a)
    {
        a.help("disturbed").section("disturbed");
        switch (s.draw(6))
        {
        case 0: a.name("DISTURBED"); break;
        case 1: a.alias("disturbed"); break;
        case 2: a.visibility(Visibility::HIDDEN).id(12345); break;
        case 3: a.count(7, 9); break;
        case 4: a.optional(); a.callback([](auto&) { fail("callback of another argument"); }); break;
        default:
            a = Argument("OTHER");
            break;
        }
    }

    void disturb(pbt::Src& s, Option& a)
    {
        a.help("disturbed").section("disturbed");
        switch (s.draw(8))
        {
        case 0: a.flag("--disturbed"); break;
        case 1: a.alias("disturbed"); break;
        case 2: a.visibility(Visibility::HIDDEN).id(12345); break;
        case 3: a.initial_value("disturbed"); break;
        case 4: a.mandatory(); a.callback([](auto&) { fail("callback of another option"); }); break;
        case 5: a.flags({"--disturbed"}).argument("DISTURBED"); break;
        case 6: a.constant("disturbed").operation(OptionOperation::APPEND).type(OptionType::STOP); break;
        default:
            a = Option("--other");
            break;
        }
    }

    void disturb(pbt::Src& s, Command& a, bool children, char prefix)
    {
        a.help("disturbed").section("disturbed");
        switch (s.draw(8))
        {
        case 0: a.name("disturbed"); break;
        case 1: a.about("disturbed").text(TextId::FINAL_TEXT, "disturbed"); break;
        case 2: a.visibility(Visibility::HIDDEN).id(12345); break;
        case 3: a.current_section("disturbed").require_subcommand(false); break;
        case 4: a.allow_multiple_subcommands(true).add(Option(std::string(1, prefix) + "disturbed")); break;
        case 5:
            if (children)
                a.add(Command("disturbed"));
            else
                a.add(Argument("DISTURBED"));
            break;
        case 6:
            a.text(TextId::INITIAL_TEXT, [] { return std::string("disturbed"); });
            break;
        default:
            a = Command("other");
            break;
        }
    }

    /// Replaces the object by a copy that has been made in some way, and
    /// does things to what it was copied from.
    template <typename T, typename F>
    void replace_by_copy(pbt::Src& s, T& t, F other)
    {
        switch (s.draw(6))
        {
        case 0: // Copy construction
        {
            T original(t);
            T copy(original);
            other(original);
            t = std::move(copy);
            break;
        }
        case 1: // Copy assignment over something else
        {
            T copy;
            other(copy);
            copy = t;
            other(t);
            t = std::move(copy);
            must_throw("object that has been moved by assignment", [&] { copy.id(1); });
            break;
        }
        case 2: // Move construction
        {
            T moved(std::move(t));
            check_unusable(t);
            t = std::move(moved);
            check_unusable(moved);
            break;
        }
        case 3: // Copy that is destroyed
        {
            {
                T copy(t);
                other(copy);
            }
            break;
        }
        case 4: // Copy assignment to itself, and from the copy
        {
            T& self = t;
            t = self;
            T copy(t);
            t = copy;
            other(copy);
            break;
        }
        default:
        {
            // The copy is moved and used up elsewhere
            T copy = t;
            T elsewhere = std::move(copy);
            other(elsewhere);
            break;
        }
        }
    }

    struct TweakStats
    {
        int tweaks = 0;
        int copied_commands = 0;
        int decoys = 0;
    };

    build::HooksPtr tweaking_hooks(pbt::Src& s, std::ostream& log, const Parser& p,
                                   std::vector<ArgumentParser>& decoys, TweakStats& stats)
    {
        auto hooks = make_hooks(log);
        hooks->tweak_argument = [&](Argument& a, bool added)
        {
            if (added)
                return check_unusable(a);
            stats.tweaks++;
            replace_by_copy(s, a, [&](Argument& x) { disturb(s, x); });
            if (s.chance(20))
            {
                // A copy of it is used by another parser
                auto& d = decoys.emplace_back("decoy");
                Argument copy(a);
                d.auto_exit(false).stream(&log).add(copy);
                stats.decoys++;
            }
        };
        hooks->tweak_option = [&](Option& o, bool added)
        {
            if (added)
                return check_unusable(o);
            stats.tweaks++;
            replace_by_copy(s, o, [&](Option& x) { disturb(s, x); });
            if (s.chance(20))
            {
                auto& d = decoys.emplace_back("decoy");
                Option copy(o);
                d.option_style(OptionStyle(int(p.style))).auto_exit(false).stream(&log);
                d.add(copy);
                stats.decoys++;
            }
        };
        hooks->tweak_command = [&](Command& c, const spec::Cmd& decl, bool added)
        {
            if (added)
                return check_unusable(c);
            stats.tweaks++;
            const char prefix = p.style == Style::SLASH ? '/' : '-';
            auto other = [&](Command& x)
            {
                disturb(s, x, !decl.cmds.empty() || decl.args.empty(), prefix);
            };
            replace_by_copy(s, c, other);
            if (s.chance(40))
            {
                // copy_from an intermediate command
                stats.copied_commands++;
                Command base(c), copy(decl.name);
                copy.copy_from(base);
                if (decl.section)
                    copy.section(*decl.section);
                if (decl.visibility)
                    copy.visibility(Visibility(unsigned(*decl.visibility)));
                if (decl.id)
                    copy.id(*decl.id);
                if (decl.require)
                    copy.require_subcommand(*decl.require);
                copy.current_section(last_section(decl));
                other(base);
                c = copy;
            }
            if (s.chance(20))
            {
                auto& d = decoys.emplace_back("decoy");
                d.option_style(OptionStyle(int(p.style))).auto_exit(false).stream(&log);
                Command copy(c);
                d.add(copy);
                stats.decoys++;
            }
        };
        return hooks;
    }

    void use_decoy(pbt::Src& s, ArgumentParser& d, const World& w)
    {
        const auto& line = s.pick(w.lines);
        try
        {
            if (s.chance(50))
                (void)d.parse(build::views(line));
            else
                d.write_help_text();
        }
        catch (const ArgosException&)
        {}
    }

    // ---- The property --------------------------------------------------

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.callbacks = 30;
        cfg.texts = 40;
        cfg.version = 25;
        cfg.sub = 40;
        auto p = gen::parser(s, cfg);
        // Some invalid declarations: every use of the parser must report them
        if (s.chance(4) && !p.cmd.opts.empty())
            p.cmd.opts[0].flags.push_back(p.cmd.opts.back().flags[0]);
        const auto f = model::finish(p);
        World w{p, f, {}, true, {}, {}, {}, {}};
        for (int i = s.range(1, 3); i > 0; --i)
        {
            auto t = gen::tokens(s, f, cfg);
            for (auto& x : t)
            {
                if (s.chance(4))
                    x = s.pick(Strings{"insert", "append"});
                if (x.find('\0') != std::string::npos)
                    w.argv_ok = false;
            }
            w.lines.push_back(std::move(t));
        }
        find_paths(p.cmd, {}, w.paths);
        c.desc << describe(p);
        for (auto& l : w.lines)
            c.desc << "command line: " << pbt::quote_all(l) << "\n";

        const bool valid = w.parsed(0).result.substr(0, 10) != "exception:";
        c.label_if(!valid, "invalid declarations");

        std::ostringstream out;
        std::vector<ArgumentParser> decoys;
        decoys.reserve(100);
        TweakStats stats;
        const bool tweak = s.chance(60);
        auto hooks = tweak ? tweaking_hooks(s, out, p, decoys, stats) : make_hooks(out);
        std::optional<ArgumentParser> parser;
        if (tweak && s.chance(30))
        {
            // All of the contents come from a command
            auto whole = build::make_command(p.cmd, {}, hooks);
            parser.emplace(p.cmd.name, false);
            build::apply_settings(*parser, p, &out, hooks);
            parser->copy_from(whole);
            if (p.cmd.require)
                parser->require_subcommand(*p.cmd.require);
            parser->current_section(last_section(p.cmd));
            disturb(s, whole, !p.cmd.cmds.empty() || p.cmd.args.empty(),
                    p.style == Style::SLASH ? '/' : '-');
            if (s.chance(50))
            {
                auto& d = decoys.emplace_back("decoy");
                d.option_style(OptionStyle(int(p.style))).auto_exit(false).stream(&out);
                whole.name("whole");
                d.add(whole);
            }
            c.label("contents copied from a command");
        }
        else
        {
            parser = build::make_parser(p, &out, hooks);
        }
        c.label_if(stats.tweaks > 0, "declarations copied and moved");
        c.label_if(stats.copied_commands > 0, "copy_from sub-command");

        struct Kept
        {
            ParsedArguments args;
            std::string result;
        };
        struct Pending
        {
            std::unique_ptr<ArgumentIterator> it;
            size_t line;
            size_t pos = 0;
        };
        std::vector<Kept> kept;
        std::vector<Pending> pending;
        uint64_t ops = 0;

        auto advance = [&](Pending& x, int max_steps)
        {
            const auto& base = w.steps(x.line);
            const auto what = "iteration over line " + std::to_string(x.line);
            for (int i = 0; i < max_steps; ++i)
            {
                Outcome end;
                const auto o = step(out, *x.it, end);
                if (o)
                {
                    if (x.pos >= base.steps.size())
                        fail(what + ": additional step " + o->result);
                    same(what + " step " + std::to_string(x.pos), base.steps[x.pos], *o);
                    x.pos++;
                    continue;
                }
                if (x.pos != base.steps.size())
                    fail(what + ": only " + std::to_string(x.pos) + " steps");
                same(what + " end", base.end, end);
                x.it.reset();
                return;
            }
        };
        auto recheck = [&](const Kept& k)
        {
            // Copies are as good as the original
            ParsedArguments copy = k.args;
            const auto t = build::transcript(s.chance(50) ? copy : k.args);
            out.str({});
            if (t != k.result)
                fail("a result changed\n--- before ---\n" + k.result + "\n--- now ---\n" + t);
        };
        auto keep = [&](std::optional<ParsedArguments>& args, const std::string& result)
        {
            if (args)
            {
                kept.push_back({std::move(*args), result});
                must_throw("a moved-from result: result_code", [&] { (void)args->result_code(); });
                must_throw("a moved-from result: command", [&] { (void)args->command(); });
                must_throw("a moved-from result: has", [&] { (void)args->has("x"); });
                must_throw("a moved-from result: values", [&] { (void)args->values("x"); });
            }
        };
        auto parse_const = [&]
        {
            const auto& cp = *parser;
            const auto line = s.draw(w.lines.size());
            const auto& tokens = w.lines[line];
            std::optional<ParsedArguments> args;
            const bool use_argv = w.argv_ok && s.chance(40);
            auto argv = make_argv("dir/other name", tokens);
            const auto o = outcome(out, [&]
            {
                return use_argv ? cp.parse(int(argv.size()), argv.data())
                                : cp.parse(build::views(tokens));
            }, &args);
            same(std::string("const parse of line ") + std::to_string(line), w.parsed(line), o);
            keep(args, o.result);
        };

        const int n = s.range(2, 12);
        for (int i = 0; i < n; ++i)
        {
            ++ops;
            const auto& cp = *parser;
            switch (s.draw(8))
            {
            case 0:
            case 1:
                parse_const();
                break;
            case 2: // New iterator
            {
                const auto line = s.draw(w.lines.size());
                if (!valid)
                {
                    must_throw("make_iterator with invalid declarations",
                               [&] { (void)cp.make_iterator(build::views(w.lines[line])); });
                    break;
                }
                Pending x{std::make_unique<ArgumentIterator>(cp.make_iterator(build::views(w.lines[line]))),
                          line};
                out.str({});
                advance(x, s.pick(std::vector<int>{1000, 0, 1, 2, 3}));
                if (x.it)
                    pending.push_back(std::move(x));
                break;
            }
            case 3: // Old iterator
                if (!pending.empty())
                {
                    const auto j = s.draw(pending.size());
                    advance(pending[j], s.range(1, 3));
                    if (!pending[j].it || s.chance(20))
                        pending.erase(pending.begin() + long(j));
                }
                break;
            case 4: // Help
            {
                const auto path = s.draw(w.paths.size());
                Outcome o;
                out.str({});
                try
                {
                    if (w.paths[path].empty())
                        cp.write_help_text();
                    else
                        cp.write_subcommand_help_text(w.paths[path]);
                }
                catch (const ArgosException& e)
                {
                    o.result = message(e);
                }
                o.output = out.str();
                out.str({});
                same("help for " + pbt::quote_all(w.paths[path]), w.help(path), o);
                break;
            }
            case 5: // Moves
            {
                if (s.chance(50))
                {
                    ArgumentParser other(std::move(*parser));
                    check_unusable(s, *parser);
                    *parser = std::move(other);
                    check_unusable(s, other);
                }
                else
                {
                    ArgumentParser other("other");
                    other.add(Argument("OTHER"));
                    other = parser->move();
                    check_unusable(s, *parser);
                    parser.emplace(std::move(other));
                }
                c.label("parser moved");
                break;
            }
            case 6:
                if (!kept.empty())
                {
                    const auto j = s.draw(kept.size());
                    recheck(kept[j]);
                    if (s.chance(30))
                        kept.erase(kept.begin() + long(j));
                }
                break;
            default:
                if (!decoys.empty())
                    use_decoy(s, decoys[s.draw(decoys.size())], w);
                else
                    parse_const();
                break;
            }
        }

        // The end of the parser
        switch (s.draw(3))
        {
        case 0:
        {
            const auto line = s.draw(w.lines.size());
            std::optional<ParsedArguments> args;
            const bool use_argv = w.argv_ok && s.chance(50);
            auto argv = make_argv("dir/other name", w.lines[line]);
            const auto o = outcome(out, [&]
            {
                return use_argv ? parser->parse(int(argv.size()), argv.data())
                                : parser->parse(build::views(w.lines[line]));
            }, &args);
            same("final parse of line " + std::to_string(line), w.parsed(line), o);
            keep(args, o.result);
            if (valid)
                check_unusable(s, *parser);
            break;
        }
        case 1:
            if (valid)
            {
                const auto line = s.draw(w.lines.size());
                Pending x{std::make_unique<ArgumentIterator>(
                              parser->make_iterator(build::views(w.lines[line]))), line};
                check_unusable(s, *parser);
                out.str({});
                pending.push_back(std::move(x));
                break;
            }
            [[fallthrough]];
        default:
            break;
        }
        parser.reset();
        for (auto& d : decoys)
        {
            if (s.chance(50))
                use_decoy(s, d, w);
        }
        decoys.clear();
        out.str({});
        // Results and iterators outlive the parser
        for (auto& x : pending)
            advance(x, 2000);
        for (auto& k : kept)
            recheck(k);
        c.label_if(!pending.empty(), "iterators outlived the parser");
        c.label_if(!kept.empty(), "results outlived the parser");
        c.extra_evaluations = ops + kept.size() + pending.size();
        c.nontrivial = kept.size() > 1 || !pending.empty();
    }

    void run_names(pbt::Src& s, pbt::Case& c)
    {
        // The name of a parser that was given none
        const Strings dirs{"", "/", "dir/", "/usr/bin/", "./", "../a b/", "a.b/", "\xC3\xA6/"};
        const Strings names{"prog", "prog.exe", "a b", "p", "\xC3\xA6", "x-y", "UNINITIALIZED"};
        const auto name = s.pick(names);
        const auto path = s.pick(dirs) + name;
        c.desc << "argv[0]: " << quote(path) << "\n";
        std::ostringstream out;
        const Strings tokens = s.chance(50) ? Strings{} : Strings{"--bad"};
        auto argv = make_argv(path.c_str(), tokens);
        const int argc = int(argv.size());
        for (int how = 0; how < 4; ++how)
        {
            ArgumentParser parser;
            parser.auto_exit(false).stream(&out);
            const auto& cp = parser;
            out.str({});
            std::string got;
            if (how < 2)
            {
                auto args = how == 0 ? cp.parse(argc, argv.data()) : parser.parse(argc, argv.data());
                got = args.name();
            }
            else
            {
                auto it = how == 2 ? cp.make_iterator(argc, argv.data())
                                   : parser.make_iterator(argc, argv.data());
                std::unique_ptr<IArgumentView> view;
                std::string_view value;
                while (it.next(view, value))
                {}
                got = it.parsed_arguments().name();
            }
            if (got != name)
                fail("overload " + std::to_string(how) + ": the program's name is " + quote(got));
            if (tokens.empty() != out.str().empty())
                fail("unexpected output: " + quote(out.str()));
            if (!tokens.empty() && out.str().compare(0, name.size() + 2, name + ": ") != 0)
                fail("the error message starts with another name: " + quote(out.str()));
            if (how % 2 == 0)
            {
                // The name came from the arguments, the parser still has none
                ArgumentParser fresh;
                if (cp.program_name() != fresh.program_name())
                    fail("a const function changed the parser's name");
            }
        }
        // An explicit name
        {
            ArgumentParser parser(path, s.chance(50));
            const bool base = parser.program_name() == name;
            if (!base && parser.program_name() != path)
                fail("the explicit name was changed to " + quote(parser.program_name()));
        }
        {
            ArgumentParser parser(path);
            parser.auto_exit(false).stream(&out);
            if (parser.program_name() != name)
                fail("the parser's name is " + quote(parser.program_name()));
            auto argv2 = make_argv("other", {});
            const auto& cp = parser;
            if (name != "UNINITIALIZED" && cp.parse(1, argv2.data()).name() != name)
                fail("argv[0] replaced the explicit name");
        }
        c.extra_evaluations = 6;
        c.label("program names");
        c.nontrivial = path != name;
    }

    void run_all(pbt::Src& s, pbt::Case& c)
    {
        if (s.chance(2))
            run_names(s, c);
        else
            run(s, c);
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C15",
        "Random declarations, of which 60% are made through random copies, moves and copy_from "
        "whose other ends are then changed, destroyed or used in other parsers; then a random "
        "history over 1-3 command lines of const parses (both overloads), iterators advanced in "
        "turns, help texts, moves of the parser, re-reading of old results and a final non-const "
        "use and destruction. Every outcome is compared with that of a new parser used once; "
        "unusable objects must throw from every function. Non-trivial: at least two results or an "
        "unfinished iterator outlive the parser.",
        15000, 500000, run_all};
    return p;
}
