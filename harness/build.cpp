#include "build.hpp"
#include "engine.hpp"
#include "lookup.hpp"

namespace BUILD_NS
{
    using namespace argos;

    namespace
    {
        template <typename T>
        void common(T& t, const spec::Common& c)
        {
            if (c.help)
            {
                if (c.help_callback)
                    t.help([h = *c.help]() { return h; });
                else
                    t.help(*c.help);
            }
            if (c.section)
                t.section(*c.section);
            if (!c.alias.empty())
                t.alias(c.alias);
            if (c.visibility)
                t.visibility(Visibility(unsigned(*c.visibility)));
            if (c.id)
                t.id(*c.id);
        }

        // T is ArgumentParser or Command.
        template <typename T>
        void contents(T& t, const spec::Cmd& c, const std::string& path,
                      const HooksPtr& hooks)
        {
            auto add = [&](char kind, int index)
            {
                const auto i = size_t(index);
                const spec::Common& cm = kind == 'a' ? static_cast<const spec::Common&>(c.args[i])
                                         : kind == 'o' ? static_cast<const spec::Common&>(c.opts[i])
                                                       : static_cast<const spec::Common&>(c.cmds[i]);
                if (cm.cur_section)
                    t.current_section(*cm.cur_section);
                if (kind == 'a')
                {
                    auto a = make_argument(c.args[i], path, index, hooks);
                    if (!hooks || !hooks->tweak_argument)
                    {
                        if (cm.how & 16)
                            t.add(a);
                        else
                            t.add(std::move(a));
                        return;
                    }
                    hooks->tweak_argument(a, false);
                    t.add(a);
                    hooks->tweak_argument(a, true);
                }
                else if (kind == 'o')
                {
                    auto o = make_option(c.opts[i], path, index, hooks);
                    if (!hooks || !hooks->tweak_option)
                    {
                        if (cm.how & 16)
                            t.add(o);
                        else
                            t.add(std::move(o));
                        return;
                    }
                    hooks->tweak_option(o, false);
                    t.add(o);
                    hooks->tweak_option(o, true);
                }
                else
                {
                    auto sub = make_command(c.cmds[i], path, hooks);
                    if (!hooks || !hooks->tweak_command)
                    {
                        if (cm.how & 16)
                            t.add(sub);
                        else
                            t.add(std::move(sub));
                        return;
                    }
                    hooks->tweak_command(sub, c.cmds[i], false);
                    t.add(sub);
                    hooks->tweak_command(sub, c.cmds[i], true);
                }
            };
            if (!c.order.empty())
            {
                for (auto [k, i] : c.order)
                    add(k, i);
            }
            else
            {
                for (size_t i = 0; i < c.args.size(); ++i)
                    add('a', int(i));
                for (size_t i = 0; i < c.opts.size(); ++i)
                    add('o', int(i));
                for (size_t i = 0; i < c.cmds.size(); ++i)
                    add('c', int(i));
            }
            if (c.last_section)
                t.current_section(*c.last_section);
            for (auto& [id, text] : c.texts)
            {
                if (c.text_callbacks)
                    t.text(TextId(int(id)), [text]() { return text; });
                else if (id == spec::Text::ABOUT && (c.how & 8))
                    t.about(text);
                else
                    t.text(TextId(int(id)), text);
            }
            if (c.multi)
                t.allow_multiple_subcommands(true);
            if (c.require)
                t.require_subcommand(*c.require);
        }
    }

    Argument make_argument(const spec::Arg& a, const std::string& path,
                           int index, const HooksPtr& hooks)
    {
        Argument arg;
        if (a.how & 1)
            arg.name(a.name);
        else
            arg = Argument(a.name);
        common(arg, a);
        if (a.set_count)
        {
            if (a.lo == a.hi)
                arg.count(a.lo);
            else
                arg.count(a.lo, a.hi);
        }
        if (a.set_optional)
        {
            if (*a.set_optional)
                arg.optional();
            else
                arg.mandatory();
        }
        if ((a.how & 8) && !a.set_count && !a.set_optional)
            arg.count(1);
        if (a.has_callback && hooks && hooks->argument)
            arg.callback([hooks, path, index](auto& x) { hooks->argument(path, index, x); });
        if (a.how & 4)
        {
            Argument copy(arg);
            if (a.how & 32)
                arg = copy;
            return copy;
        }
        return arg;
    }

    namespace
    {
        /// Constants can be given in several ways.
        void constant(Option& opt, const spec::Opt& o)
        {
            const auto& c = o.constant;
            char* end = nullptr;
            const auto n = strtoll(c.c_str(), &end, 10);
            if (!(o.how & 1))
                opt.constant(c);
            else if (c != std::to_string(n) || (o.how & 8))
                opt.constant(c.c_str());
            else if ((c == "0" || c == "1") && (o.how & 32))
                opt.constant(n == 1);
            else if (n == int(n) && (o.how & 4))
                opt.constant(int(n));
            else
                opt.constant(n);
        }
    }

    Option make_option(const spec::Opt& o, const std::string& path,
                       int index, const HooksPtr& hooks)
    {
        Option opt;
        const auto& f = o.flags;
        if (!(o.how & 2) || f.empty() || f.size() > 3)
            opt.flags(f);
        else if (f.size() == 1 && (o.how & 32))
            opt.flag(f[0]);
        else if (f.size() == 1)
            opt = Option(f[0]);
        else if (f.size() == 2 && (o.how & 32))
            opt = Option({f[0], f[1]});
        else if (f.size() == 2)
            opt = Option(f[0], f[1]);
        else
            opt = Option{f[0], f[1], f[2]};
        common(opt, o);
        if (!o.argument.empty())
            opt.argument(o.argument);
        if (!o.constant.empty())
            constant(opt, o);
        if (o.set_op)
            opt.operation(OptionOperation(int(o.op)));
        if (o.type != spec::Type::NORMAL)
            opt.type(OptionType(int(o.type)));
        if (o.mandatory)
        {
            if (o.how & 32)
                opt.optional(false);
            else
                opt.mandatory();
        }
        else if (o.how & 8)
        {
            if (o.how & 32)
                opt.mandatory(false);
            else
                opt.optional();
        }
        if (!o.initial.empty())
            opt.initial_value(o.initial);
        if (o.has_callback && hooks && hooks->option)
            opt.callback([hooks, path, index](auto& x) { hooks->option(path, index, x); });
        if (o.how & 4)
        {
            Option copy(opt);
            if (o.how & 32)
                opt = copy;
            return copy;
        }
        return opt;
    }

    Command make_command(const spec::Cmd& c, const std::string& path,
                         const HooksPtr& hooks)
    {
        Command cmd;
        if (c.how & 1)
            cmd.name(c.name);
        else
            cmd = Command(c.name);
        contents(cmd, c, path + c.name + "/", hooks);
        if (c.help)
            cmd.help(*c.help);
        if (c.section)
            cmd.section(*c.section);
        if (c.visibility)
            cmd.visibility(Visibility(unsigned(*c.visibility)));
        if (c.id)
            cmd.id(*c.id);
        if (c.how & 4)
        {
            Command copy(cmd);
            if (c.how & 32)
                cmd = copy;
            return copy;
        }
        return cmd;
    }

    namespace
    {
        spec::Style parser_style(const ArgumentParser& parser)
        {
            return spec::Style(int(parser.option_style()));
        }
    }

    void apply_settings(ArgumentParser& parser, const spec::Parser& p,
                        std::ostream* stream, const HooksPtr& hooks)
    {
        // What equals the default needn't be set.
        const bool all = !(p.how & 4);
        if ((all && !(p.how & 8)) || p.style != parser_style(parser))
            parser.option_style(OptionStyle(int(p.style)));
        if (all || p.abbrev)
            parser.allow_abbreviated_options(p.abbrev);
        if (all || p.ci)
            parser.case_insensitive(p.ci);
        if (all || !p.gen_help)
            parser.generate_help_option(p.gen_help);
        if (p.version)
            parser.version(*p.version);
        if (all || p.ignore_args)
            parser.ignore_undefined_arguments(p.ignore_args);
        if (all || p.ignore_opts)
            parser.ignore_undefined_options(p.ignore_opts);
        if (all || p.line_width)
            parser.line_width(p.line_width);
        for (auto& r : p.split_rules)
            parser.add_word_splitting_rule(r);
        if (p.exit_codes)
            parser.set_exit_codes(p.exit_codes->first, p.exit_codes->second);
        parser.auto_exit(p.auto_exit);
        parser.stream(stream);
        if (p.opt_callback && hooks && hooks->any_option)
            parser.option_callback([hooks](auto& x) { hooks->any_option(x); });
        if (p.arg_callback && hooks && hooks->any_argument)
            parser.argument_callback([hooks](auto& x) { hooks->any_argument(x); });
    }

    void apply_contents(ArgumentParser& parser, const spec::Parser& p,
                        const HooksPtr& hooks)
    {
        contents(parser, p.cmd, p.cmd.name + "/", hooks);
    }

    ArgumentParser make_parser(const spec::Parser& p, std::ostream* stream,
                               const HooksPtr& hooks)
    {
        ArgumentParser parser(p.cmd.name, false);
        if (p.how & 1)
            parser = ArgumentParser("some/dir/" + p.cmd.name);
        else if (p.how & 2)
        {
            parser = ArgumentParser();
            parser.program_name(p.cmd.name);
        }
        if (p.how & 8)
        {
            parser.option_style(OptionStyle(int(p.style)));
            apply_contents(parser, p, hooks);
            apply_settings(parser, p, stream, hooks);
        }
        else
        {
            apply_settings(parser, p, stream, hooks);
            apply_contents(parser, p, hooks);
        }
        return parser;
    }

    std::string view_name(const IArgumentView* view)
    {
        if (!view)
            return "?";
        if (auto a = dynamic_cast<const ArgumentView*>(view))
            return a->name();
        if (auto o = dynamic_cast<const OptionView*>(view))
            return o->flags().empty() ? "?noflags" : o->flags().front();
        if (auto c = dynamic_cast<const CommandView*>(view))
            return c->name();
        return "?unknown view";
    }

    spec::Node observe(const ParsedArguments& args, const spec::Cmd& cmd, bool ci)
    {
        spec::Node n;
        n.name = std::string(args.name());
        n.code = spec::Code(int(args.result_code()));
        bool has_stop = true;
        try
        {
            n.stop_flags = args.stop_option().flags();
        }
        catch (const ArgosException&)
        {
            has_stop = false;
        }
        if (has_stop && n.code != spec::Code::STOP)
            pbt::fail("stop_option() is available, but the result code is "
                      + std::string(to_string(n.code)));
        auto read = [&](const std::string& name)
        {
            auto values = args.values(name);
            auto& v = n.values[name];
            auto& s = n.sources[name];
            v.clear();
            s.clear();
            for (const auto& value : values)
            {
                v.push_back(value.as_string("<no value>"));
                s.push_back(view_name(value.argument().get()));
            }
            if (args.has(name) != !v.empty())
                pbt::fail("has(" + pbt::quote(name) + ") disagrees with values()");
            // As a single value
            try
            {
                const auto value = args.value(name);
                if (v.size() > 1)
                    pbt::fail("value(" + pbt::quote(name) + ") returns one of several values");
                if (bool(value) == v.empty() || value.as_string() != (v.empty() ? "" : v[0]))
                    pbt::fail("value(" + pbt::quote(name) + ") disagrees with values()");
            }
            catch (const ArgosException&)
            {
                if (v.size() <= 1)
                    pbt::fail("value(" + pbt::quote(name) + ") throws, but there are not several values");
            }
        };
        for (auto& a : cmd.args)
        {
            read(a.name);
            if (!a.alias.empty())
                read(a.alias);
        }
        for (auto& o : cmd.opts)
        {
            if (o.op == spec::Op::NONE)
                continue;
            for (auto& f : o.flags)
                read(f);
            if (!o.alias.empty())
                read(o.alias);
        }
        n.unprocessed = args.unprocessed_arguments();
        for (auto& sub : args.subcommands())
        {
            auto* sc = lookup::find_command(cmd, std::string(sub.name()), ci);
            if (!sc)
                pbt::fail("the result contains an undeclared sub-command "
                          + pbt::quote(sub.name()));
            n.subs.push_back(observe(sub, *sc, ci));
        }
        return n;
    }

    std::vector<std::string_view> views(const spec::Strings& tokens)
    {
        return {tokens.begin(), tokens.end()};
    }
}
