// Views report declarations faithfully and identify the source of each value.
#include <algorithm>
#include <iostream>
#include <set>
#include "../check.hpp"
#include "../gen.hpp"
#include "../help.hpp"
#include "../lookup.hpp"

namespace
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;

    template <typename A, typename B>
    void same(const std::string& what, const A& actual, const B& expected)
    {
        if (actual == expected)
            return;
        std::ostringstream s;
        s << what << " is ";
        auto put = [&](const auto& x)
        {
            if constexpr (std::is_convertible_v<decltype(x), std::string_view>)
                s << quote(x);
            else
                s << x;
        };
        put(actual);
        s << ", expected ";
        put(expected);
        fail(s.str());
    }

    void check_common(const std::string& what, const argos::IArgumentView& v, const Common& c,
                      const std::string& section, const std::string& alias)
    {
        same(what + "help()", v.help(), c.help.value_or(""));
        same(what + "section()", v.section(), section);
        same(what + "alias()", v.alias(), alias);
        same(what + "visibility()", unsigned(v.visibility()), unsigned(c.vis()));
        same(what + "id()", v.id(), c.id.value_or(0));
    }

    void check_argument(const std::string& what, const argos::ArgumentView& v, const Arg& a,
                        const std::string& section)
    {
        check_common(what, v, a, section, a.alias);
        same(what + "name()", v.name(), a.name);
        same(what + "minimum count", v.count().first, a.lo);
        same(what + "maximum count", v.count().second, a.hi);
        same(what + "optional()", v.optional(), a.lo == 0);
    }

    void check_option(const std::string& what, const argos::OptionView& v, const Opt& o,
                      const std::string& section)
    {
        auto x = o;
        if (o.generated)
            x.help = o.type == Type::HELP ? "Display this help text." : "Display the program version.";
        check_common(what, v, x, section, o.alias);
        if (v.flags() != o.flags)
            fail(what + "flags() is " + pbt::quote_all(v.flags()) + ", expected " + pbt::quote_all(o.flags));
        same(what + "operation()", int(v.operation()), int(o.op));
        same(what + "type()", int(v.type()), int(o.type));
        same(what + "argument()", v.argument(), o.argument);
        same(what + "constant()", v.constant(), o.constant);
        same(what + "initial_value()", v.initial_value(), o.initial);
        same(what + "optional()", v.optional(), !o.mandatory);
    }

    struct Ids
    {
        std::set<int> arguments; // of all definitions in all commands
        std::set<int> values;    // of the commands visited before
    };

    void check_ids(const std::string& what, const Cmd& c, const argos::CommandView& v, Ids& ids)
    {
        const auto groups = model::value_groups(c);
        const auto args = v.arguments();
        const auto opts = v.options();
        auto claim = [&](const std::string& name, int id)
        {
            if (!ids.arguments.insert(id).second)
                fail(what + name + " has the same argument id as another definition: " + std::to_string(id));
        };
        claim("the command", int(v.argument_id()));
        std::map<int, int> group_id;
        std::map<int, int> id_group;
        auto check = [&](const std::string& name, int group, int id)
        {
            if (group < 0)
                return;
            if (auto [it, added] = group_id.emplace(group, id); !added && it->second != id)
                fail(what + name + " hasn't the same value id as those it's linked with: "
                     + std::to_string(id) + " and " + std::to_string(it->second));
            if (auto [it, added] = id_group.emplace(id, group); !added && it->second != group)
                fail(what + name + " has the same value id as another definition it isn't linked with");
            if (ids.values.count(id))
                fail(what + name + " has the same value id as a definition in another command");
        };
        for (size_t i = 0; i < args.size(); ++i)
        {
            claim("argument " + std::to_string(i), int(args[i].argument_id()));
            check("argument " + std::to_string(i), groups[i], int(args[i].value_id()));
        }
        for (size_t i = 0; i < opts.size(); ++i)
        {
            claim("option " + std::to_string(i), int(opts[i].argument_id()));
            check("option " + std::to_string(i), groups[args.size() + i], int(opts[i].value_id()));
        }
        for (auto& [_, id] : group_id)
            ids.values.insert(id);
    }

    void check_command(const std::string& what, const argos::CommandView& v, const Cmd& c, bool top, Ids& ids)
    {
        const auto sections = help::sections(c);
        same(what + "name()", v.name(), c.name);
        same(what + "require_subcommand()", v.require_subcommand(), c.require.value_or(!c.cmds.empty()));
        if (top)
        {
            const auto it = c.texts.find(Text::HELP);
            same(what + "help()", v.help(), it == c.texts.end() ? "" : it->second);
        }
        const auto args = v.arguments();
        const auto opts = v.options();
        const auto cmds = v.subcommands();
        same(what + "number of arguments", args.size(), c.args.size());
        same(what + "number of options", opts.size(), c.opts.size());
        same(what + "number of sub-commands", cmds.size(), c.cmds.size());
        for (size_t i = 0; i < args.size(); ++i)
            check_argument(what + "argument " + std::to_string(i) + ": ", args[i], c.args[i], sections.args[i]);
        for (size_t i = 0; i < opts.size(); ++i)
            check_option(what + "option " + std::to_string(i) + ": ", opts[i], c.opts[i], sections.opts[i]);
        check_ids(what, c, v, ids);
        for (size_t i = 0; i < cmds.size(); ++i)
        {
            const auto where = what + "sub-command " + std::to_string(i) + ": ";
            auto common = static_cast<const Common&>(c.cmds[i]);
            if (!common.help)
            {
                if (auto it = c.cmds[i].texts.find(Text::HELP); it != c.cmds[i].texts.end())
                    common.help = it->second;
            }
            check_common(where, cmds[i], common, sections.cmds[i], c.cmds[i].name);
            check_command(where, cmds[i], c.cmds[i], false, ids);
        }
    }

    std::string label_of(const argos::IArgumentView& v)
    {
        if (auto a = dynamic_cast<const argos::ArgumentView*>(&v))
            return a->name();
        std::string r;
        for (auto& f : dynamic_cast<const argos::OptionView&>(v).flags())
            r += (r.empty() ? "" : ", ") + f;
        return r;
    }

    /// What print() must write.
    std::string summary(const argos::ParsedArguments& args)
    {
        std::vector<std::pair<int, std::unique_ptr<argos::IArgumentView>>> views;
        for (auto& v : args.all_arguments())
            views.emplace_back(int(v->value_id()), std::move(v));
        for (auto& v : args.all_options())
            views.emplace_back(int(v->value_id()), std::move(v));
        std::map<int, std::vector<const argos::IArgumentView*>> groups;
        for (auto& [id, v] : views)
            groups[id].push_back(v.get());
        std::string r;
        for (auto& [id, group] : groups)
        {
            std::string label;
            for (auto* v : group)
                label += (label.empty() ? "" : ", ") + label_of(*v);
            r += label + ":";
            for (auto x : args.values(*group[0]).raw_values())
                r += " \"" + std::string(x) + "\"";
            r += "\n";
        }
        if (!args.unprocessed_arguments().empty())
        {
            r += "Unprocessed arguments:";
            for (auto& x : args.unprocessed_arguments())
                r += " \"" + x + "\"";
        }
        for (auto& sub : args.subcommands())
            r += "\nSubcommand: " + std::string(sub.name()) + "\n" + summary(sub);
        return r;
    }

    struct Counts
    {
        size_t linked = 0, sourced = 0, definitions = 0;
    };

    /// Every value of one command's result.
    void check_values(const std::string& where, const argos::ParsedArguments& args, const Cmd& c, const Node* n,
                      Counts& counts)
    {
        const auto all_args = args.all_arguments();
        const auto all_opts = args.all_options();
        const auto all_cmds = args.all_subcommands();
        same(where + "all_arguments().size()", all_args.size(), c.args.size());
        same(where + "all_options().size()", all_opts.size(), c.opts.size());
        same(where + "all_subcommands().size()", all_cmds.size(), c.cmds.size());
        const auto sections = help::sections(c);
        for (size_t i = 0; i < all_args.size(); ++i)
            check_argument(where + "all_arguments()[" + std::to_string(i) + "] ", *all_args[i], c.args[i],
                           sections.args[i]);
        for (size_t i = 0; i < all_opts.size(); ++i)
            check_option(where + "all_options()[" + std::to_string(i) + "] ", *all_opts[i], c.opts[i],
                         sections.opts[i]);
        for (size_t i = 0; i < all_cmds.size(); ++i)
            same(where + "all_subcommands()[i].name()", all_cmds[i]->name(), c.cmds[i].name);
        counts.definitions += all_args.size() + all_opts.size();

        const auto groups = model::value_groups(c);
        auto view_of = [&](size_t def) -> const argos::IArgumentView&
        {
            if (def < all_args.size())
                return *all_args[def];
            return *all_opts[def - all_args.size()];
        };
        auto check = [&](const std::string& name, size_t def)
        {
            auto& view = view_of(def);
            const auto what = where + quote(name) + ": ";
            const auto by_name = args.values(name);
            const auto by_view = args.values(view);
            if (by_name.raw_values() != by_view.raw_values())
                fail(what + "values by name " + pbt::quote_all(by_name.raw_values()) + " and by view "
                     + pbt::quote_all(by_view.raw_values()) + " differ");
            same(what + "has(view)", args.has(view), !by_view.empty());
            same(what + "has(name)", args.has(name), !by_view.empty());
            if (by_view.size() <= 1)
            {
                const auto v1 = args.value(name), v2 = args.value(view);
                if (v1.value() != v2.value() || bool(v1) != !by_view.empty())
                    fail(what + "value() by name and by view differ");
                if (v1)
                {
                    if (*v1.value() != by_view.raw_values()[0])
                        fail(what + "value() and values() differ");
                    if (bool(v1.argument()) != bool(v2.argument())
                        || (v1.argument() && v1.argument()->argument_id() != v2.argument()->argument_id()))
                        fail(what + "the sources of value() by name and view differ");
                }
            }
            else
            {
                auto refused = [](auto f)
                {
                    try
                    {
                        f();
                    }
                    catch (const argos::ArgosException&)
                    {
                        return true;
                    }
                    return false;
                };
                if (!refused([&] { (void)args.value(name); }) || !refused([&] { (void)args.value(view); }))
                    fail(what + "value() returns one of several values");
            }
            // The definitions that share the values
            std::vector<int> expected, actual;
            for (size_t i = 0; i < groups.size(); ++i)
            {
                if (groups[i] == groups[def])
                    expected.push_back(int(view_of(i).argument_id()));
            }
            counts.linked += expected.size() > 1;
            for (auto* list : {&by_name, &by_view})
            {
                actual.clear();
                for (auto& v : list->arguments())
                    actual.push_back(int(v->argument_id()));
                if (actual != expected)
                    fail(what + "arguments() isn't the definitions that are linked");
            }
            if (!n)
                return;
            // The definition each value came from
            const auto it = n->definitions.find(name);
            const auto size = it == n->definitions.end() ? 0 : it->second.size();
            same(what + "number of values", by_name.size(), size);
            for (size_t i = 0; i < size; ++i)
            {
                const auto source = by_name.value(i).argument();
                const auto d = it->second[i];
                if (d < 0)
                    continue;
                if (!source)
                    fail(what + "value " + std::to_string(i) + " has no source");
                same(what + "argument id of the source of value " + std::to_string(i),
                     int(source->argument_id()), int(view_of(size_t(d)).argument_id()));
                same(what + "name of the source of value " + std::to_string(i), label_of(*source),
                     label_of(view_of(size_t(d))));
                same(what + "value id of the source", int(source->value_id()), int(view.value_id()));
                // Every other way to the same value
                auto it = by_view.begin();
                for (size_t k = 0; k < i; ++k)
                    ++it;
                const auto list = by_view.values();
                const auto copy = by_name;
                const argos::ArgumentValue ways[] = {
                    by_view.value(i), by_name[i], list.at(i), *it, copy.values().at(i), copy.value(i),
                    size == 1 ? args.value(name) : by_name[i], size == 1 ? args.value(view) : by_name[i]};
                for (auto& way : ways)
                {
                    const auto src = way.argument();
                    if (!src)
                        fail(what + "value " + std::to_string(i) + " has no source when it's read in another way");
                    same(what + "source of value " + std::to_string(i) + " read in another way",
                         int(src->argument_id()), int(source->argument_id()));
                    same(what + "value " + std::to_string(i) + " read in another way", way.as_string(),
                         std::string(by_view.raw_values()[i]));
                }
                const auto parts = by_name.value(i).split('a');
                for (const auto& part : parts)
                {
                    if (!part.argument() || part.argument()->argument_id() != source->argument_id())
                        fail(what + "a part of value " + std::to_string(i) + " has another source");
                }
                counts.sourced++;
            }
        };
        for (size_t i = 0; i < c.args.size(); ++i)
        {
            check(c.args[i].name, i);
            if (!c.args[i].alias.empty())
                check(c.args[i].alias, i);
        }
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            if (c.opts[i].op == Op::NONE)
            {
                if (args.has(*all_opts[i]) || !args.values(*all_opts[i]).empty())
                    fail(where + "an option without a value has one");
                continue;
            }
            for (auto& f : c.opts[i].flags)
                check(f, c.args.size() + i);
            if (!c.opts[i].alias.empty())
                check(c.opts[i].alias, c.args.size() + i);
        }
    }

    /// Names of something else are no names of values.
    void check_unknown(const std::string& where, const argos::ParsedArguments& args, const Cmd& c,
                       const Strings& others)
    {
        std::set<std::string> known;
        for (auto& a : c.args)
        {
            known.insert(a.name);
            known.insert(a.alias);
        }
        for (auto& o : c.opts)
        {
            known.insert(o.flags.begin(), o.flags.end());
            known.insert(o.alias);
        }
        known.erase("");
        Strings names = others;
        names.emplace_back("");
        names.push_back(c.name);
        for (auto& k : known)
        {
            names.push_back(k + "x");
            names.push_back(k.substr(0, k.size() - 1));
            names.push_back(k.substr(1));
        }
        for (auto& name : names)
        {
            if (known.count(name))
                continue;
            auto must_throw = [&](const std::string& what, auto f)
            {
                try
                {
                    f();
                }
                catch (const argos::ArgosException&)
                {
                    return;
                }
                fail(where + what + " accepts " + quote(name) + ", which is no name here");
            };
            must_throw("has()", [&] { (void)args.has(name); });
            must_throw("value()", [&] { (void)args.value(name); });
            must_throw("values()", [&] { (void)args.values(name); });
        }
    }

    Strings names_of(const Cmd& c)
    {
        Strings r;
        for (auto& a : c.args)
            r.push_back(a.name);
        for (auto& o : c.opts)
            r.insert(r.end(), o.flags.begin(), o.flags.end());
        return r;
    }

    void check_result(const std::string& where, const argos::ParsedArguments& args, const Cmd& c, const Node* n,
                      bool ci, Counts& counts, const Strings& others = {})
    {
        check_values(where, args, c, n, counts);
        if (counts.definitions % 4 == 0)
            check_unknown(where, args, c, others);
        const auto subs = args.subcommands();
        for (size_t i = 0; i < subs.size(); ++i)
        {
            const auto* sub = lookup::find_command(c, std::string(subs[i].name()), ci);
            if (!sub)
                fail(where + "unknown sub-command");
            same(where + "command().name()", subs[i].command().name(), sub->name);
            // Definitions of other commands have no values here
            for (auto& v : args.all_options())
            {
                if (v->operation() != argos::OptionOperation::NONE && subs[i].has(*v))
                    fail(where + "an option of the parent has a value in the sub-command");
            }
            check_result(where + sub->name + ": ", subs[i], *sub, n ? &n->subs[i] : nullptr, ci, counts,
                         names_of(c));
        }
    }

    /// The parser's settings: the last value set counts.
    void check_settings(pbt::Src& s, pbt::Case& c)
    {
        struct Settings
        {
            bool abbrev = false, auto_exit = true, ci = false, gen_help = true, multi = false,
                 ignore_args = false, ignore_opts = false, arg_cb = false, opt_cb = false;
            Style style = Style::STANDARD;
            std::optional<bool> require;
            std::ostream* stream = nullptr;
            std::string name, section;
        } e;
        static std::ostringstream streams[2];
        const bool extract = s.chance(50);
        const auto path = s.pick(Strings{"prog", "/usr/bin/prog", "a b", "dir/", "x.exe"});
        argos::ArgumentParser p(path, extract);
        e.name = extract ? path == "/usr/bin/prog" ? "prog" : path == "dir/" ? "" : path : path;
        bool check_name = !(extract && path == "dir/");
        c.desc << "settings:";
        const int n = s.range(0, 12);
        for (int i = 0; i < n; ++i)
        {
            const auto what = s.draw(14);
            const bool b = s.chance(50);
            c.desc << " " << what << "=" << b;
            switch (what)
            {
            case 0: p.allow_abbreviated_options(e.abbrev = b); break;
            case 1: p.auto_exit(e.auto_exit = b); break;
            case 2: p.case_insensitive(e.ci = b); break;
            case 3: p.generate_help_option(e.gen_help = b); break;
            case 4: p.allow_multiple_subcommands(e.multi = b); break;
            case 5: p.ignore_undefined_arguments(e.ignore_args = b); break;
            case 6: p.ignore_undefined_options(e.ignore_opts = b); break;
            case 7:
                e.style = Style(s.draw(3));
                p.option_style(argos::OptionStyle(int(e.style)));
                break;
            case 8: p.require_subcommand(b); e.require = b; break;
            case 9: p.stream(e.stream = b ? &streams[0] : &streams[1]); break;
            case 10:
                e.name = s.pick(Strings{"x", "", "two words", "a/b"});
                check_name = true;
                p.program_name(e.name);
                break;
            case 11: p.current_section(e.section = s.pick(Strings{"A", "", "B"})); break;
            case 12:
                p.argument_callback(b ? argos::ArgumentCallback([](auto&) {}) : argos::ArgumentCallback());
                e.arg_cb = b;
                break;
            default:
                p.option_callback(b ? argos::OptionCallback([](auto&) {}) : argos::OptionCallback());
                e.opt_cb = b;
                break;
            }
        }
        c.desc << "\n";
        if (s.chance(30))
        {
            argos::ArgumentParser q(p.move());
            p = q.move();
        }
        same("allow_abbreviated_options()", p.allow_abbreviated_options(), e.abbrev);
        same("auto_exit()", p.auto_exit(), e.auto_exit);
        same("case_insensitive()", p.case_insensitive(), e.ci);
        same("generate_help_option()", p.generate_help_option(), e.gen_help);
        same("allow_multiple_subcommands()", p.allow_multiple_subcommands(), e.multi);
        same("ignore_undefined_arguments()", p.ignore_undefined_arguments(), e.ignore_args);
        same("ignore_undefined_options()", p.ignore_undefined_options(), e.ignore_opts);
        same("option_style()", int(p.option_style()), int(e.style));
        same("require_subcommand()", p.require_subcommand().value_or(false), e.require.value_or(false));
        same("require_subcommand().has_value()", p.require_subcommand().has_value(), e.require.has_value());
        same("stream()", p.stream(), e.stream);
        if (check_name)
            same("program_name()", p.program_name(), e.name);
        same("current_section()", p.current_section(), e.section);
        same("argument_callback()", bool(p.argument_callback()), e.arg_cb);
        same("option_callback()", bool(p.option_callback()), e.opt_cb);
        c.label("settings");
    }

    void set_ids(pbt::Src& s, Cmd& c)
    {
        for (auto& x : c.args)
            if (s.chance(30)) x.id = s.range(-2, 100);
        for (auto& x : c.opts)
            if (s.chance(30)) x.id = s.range(-2, 100);
        for (auto& x : c.cmds)
        {
            if (s.chance(30)) x.id = s.range(-2, 100);
            set_ids(s, x);
        }
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        if (s.chance(10))
        {
            check_settings(s, c);
            return;
        }
        gen::Cfg cfg;
        cfg.version = 25;
        cfg.max_opts = 6;
        cfg.sub = 45;
        cfg.max_depth = 3;
        cfg.link = 40;
        cfg.misuse = 8;
        cfg.junk = 4;
        cfg.ignore_args = cfg.ignore_opts = 20;
        cfg.callbacks = 50;
        auto p = gen::parser(s, cfg);
        if (s.chance(50))
            gen::decorate(s, p);
        set_ids(s, p.cmd);
        const auto f = model::finish(p);
        const auto tokens = gen::tokens(s, f, cfg);
        check::describe(c, p, tokens);
        const auto m = model::parse(f, tokens);

        // Callbacks report the same views
        std::vector<std::pair<int, std::string>> seen; // argument id, name
        auto hooks = std::make_shared<build::Hooks>();
        auto find = [&](const std::string& path) -> const Cmd*
        {
            const Cmd* cmd = &f.cmd;
            size_t pos = path.find('/') + 1;
            while (pos < path.size())
            {
                const auto end = path.find('/', pos);
                cmd = lookup::find_command(*cmd, path.substr(pos, end - pos), false);
                if (!cmd)
                    return nullptr;
                pos = end + 1;
            }
            return cmd;
        };
        hooks->option = [&](auto& path, int i, auto& x)
        {
            if (auto* cmd = find(path))
                check_option("callback of option: ", x.view, cmd->opts[size_t(i)],
                             help::sections(*cmd).opts[size_t(i)]);
        };
        hooks->argument = [&](auto& path, int i, auto& x)
        {
            if (auto* cmd = find(path))
                check_argument("callback of argument: ", x.view, cmd->args[size_t(i)],
                               help::sections(*cmd).args[size_t(i)]);
        };
        hooks->any_option = [&](auto& x) { seen.emplace_back(int(x.view.argument_id()), label_of(x.view)); };
        hooks->any_argument = [&](auto& x) { seen.emplace_back(int(x.view.argument_id()), label_of(x.view)); };
        std::ostringstream out;
        const auto parser = build::make_parser(p, &out, hooks);
        const auto args = parser.parse(build::views(tokens));

        Ids ids;
        check_command("", args.command(), f.cmd, true, ids);
        Counts counts;
        const bool exact = !m.unspecified && !m.failed;
        const auto node = exact ? m.node() : Node();
        check_result("", args, f.cmd, exact ? &node : nullptr, f.ci, counts);

        // The stop option
        if (exact && m.used_stop && m.insts[0].stop)
        {
            const auto* stop = m.insts[0].stop;
            for (auto& in : m.insts)
            {
                for (size_t i = 0; i < in.cmd->opts.size(); ++i)
                {
                    if (&in.cmd->opts[i] == stop)
                        check_option("stop_option(): ", args.stop_option(), *stop,
                                     help::sections(*in.cmd).opts[i]);
                }
            }
        }

        // What an iterator reports is what the callbacks were given
        if (p.opt_callback && p.arg_callback && !m.unspecified)
        {
            const auto calls = seen;
            auto it = parser.make_iterator(build::views(tokens));
            std::unique_ptr<argos::IArgumentView> view;
            std::string_view value;
            size_t k = 0;
            while (it.next(view, value))
            {
                if (!view || dynamic_cast<argos::CommandView*>(view.get()))
                {
                    if (auto* cv = dynamic_cast<argos::CommandView*>(view.get()))
                        same("argument id of the iterator's command", int(cv->argument_id()),
                             int(it.parsed_arguments().command().argument_id()));
                    continue;
                }
                if (k >= calls.size() || calls[k].first != int(view->argument_id())
                    || calls[k].second != label_of(*view))
                    fail("the iterator reports " + quote(label_of(*view)) + ", but callback number "
                         + std::to_string(k) + " was called with "
                         + (k < calls.size() ? quote(calls[k].second) : "nothing"));
                ++k;
            }
        }

        // The summary
        std::ostringstream printed, printed2;
        argos::print(args, printed);
        auto expected = summary(args);
        auto actual = printed.str();
        auto trim = [](std::string& t)
        {
            while (!t.empty() && t.back() == '\n')
                t.pop_back();
        };
        auto* old = std::cout.rdbuf(printed2.rdbuf());
        argos::print(args);
        std::cout.rdbuf(old);
        if (printed2.str() != actual)
            fail("print(args) and print(args, stream) write different things");
        trim(expected);
        trim(actual);
        if (actual != expected)
            fail("the printed summary is\n" + actual + "\nexpected\n" + expected);
        c.label_if(counts.linked > 0, "linked definitions");
        c.label_if(counts.sourced > 0, "values with a known source");
        c.label_if(exact, "exact");
        c.nontrivial = counts.definitions > 2;
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C21",
        "Random declarations with texts, sections, visibilities, ids, aliases and initial values at every "
        "level: every view (of the command tree, the results, callbacks, iterators and stop options) is "
        "compared with the declaration, ids with the linked groups of the reference model, the source of "
        "each value with the definition that produced it in the model, values by view with values by "
        "name, and the printed summary with the values; in 10% of the cases random sequences of settings "
        "are compared with what the parser reports. Non-trivial: a result with more than two definitions.",
        250000, 3000000, run};
    return p;
}
