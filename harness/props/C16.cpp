// The help text is complete, truthful and respects visibility.
#include <algorithm>
#include "../check.hpp"
#include "../gen.hpp"
#include "../help.hpp"
#include "../layout.hpp"

namespace
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;

    void find_paths(const Cmd& c, const Strings& path, std::vector<Strings>& paths)
    {
        paths.push_back(path);
        for (auto& sub : c.cmds)
        {
            auto p = path;
            p.push_back(sub.name);
            find_paths(sub, p, paths);
        }
    }

    size_t items(const Cmd& c) { return c.args.size() + c.opts.size() + c.cmds.size(); }

    void check_text(const Cmd& cmd, const std::string& full_name, const std::string& output,
                    unsigned width, pbt::Case& c)
    {
        const layout::Options o{width, width >= 1000000, true, nullptr};
        const auto beside = layout::match(help::text(cmd, full_name, true), output, o);
        if (beside.empty())
        {
            c.label("text beside label");
            return;
        }
        const auto below = layout::match(help::text(cmd, full_name, false), output, o);
        if (below.empty())
        {
            c.label("text below label");
            return;
        }
        fail("help of " + quote(full_name) + ": " + beside + "; or: " + below + "\n--- output ---\n"
             + output + "--- end ---");
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.version = 25;
        cfg.max_opts = 7;
        cfg.sub = 45;
        cfg.max_depth = 3;
        auto p = gen::parser(s, cfg);
        gen::decorate(s, p);
        if (s.chance(20))
            p.cmd.name = s.pick(Strings{"a", "two words", "\xc3\xa6", "-", "a-very-long-program-name-indeed"});
        const unsigned wide = 1000000;
        p.line_width = s.chance(70) ? wide : unsigned(s.range(10, 200));
        c.desc << describe(p);
        const auto f = model::finish(p);
        std::vector<Strings> paths;
        find_paths(p.cmd, {}, paths);
        uint64_t n = 0;
        size_t total = 0, hidden = 0;
        std::ostringstream out;
        const auto parser = build::make_parser(p, &out);
        for (auto& path : paths)
        {
            std::string full_name;
            const auto* cmd = help::find(f, path, full_name);
            if (!cmd)
                fail("internal error");
            // Sub-commands with the same name but for case
            if (!path.empty() && cmd->name != path.back())
                continue;
            total += items(*cmd);
            for (auto& x : cmd->opts)
                hidden += x.vis() != 3;
            auto write = [&](const argos::ArgumentParser& a)
            {
                out.str({});
                if (path.empty())
                    a.write_help_text();
                else
                    a.write_subcommand_help_text(path);
                ++n;
                return out.str();
            };
            const auto text = write(parser);
            if (p.line_width >= 20)
                check_text(*cmd, full_name, text, p.line_width, c);
            if (path.empty())
            {
                out.str({});
                parser.write_subcommand_help_text({});
                if (out.str() != text)
                    fail("write_help_text() and write_subcommand_help_text({}) differ");
            }
            else if (p.ci && s.chance(30))
            {
                auto other = path;
                for (auto& x : other)
                    x = gen::random_case(s, x);
                out.str({});
                parser.write_subcommand_help_text(other);
                if (out.str() != text)
                    fail("the help for " + pbt::quote_all(other) + " differs");
                c.label("help for name in other case");
            }
            // The same text by way of a help option
            for (auto& o : cmd->opts)
            {
                if (o.type != Type::HELP || o.op == Op::CLEAR || o.op == Op::NONE)
                    continue;
                const auto& flag = s.pick(o.flags);
                auto tokens = path;
                tokens.push_back(flag);
                if (!o.argument.empty())
                    tokens.push_back("value");
                const auto m = model::parse(f, tokens);
                if (m.unspecified || m.failed || m.help_cmd != full_name)
                    continue;
                out.str({});
                (void)parser.parse(build::views(tokens));
                ++n;
                if (out.str() != text)
                    fail("the help text written by the help option, " + pbt::quote_all(tokens)
                         + ", differs:\n--- help option ---\n" + out.str()
                         + "--- write_subcommand_help_text ---\n" + text + "--- end ---");
                c.label(o.generated ? "generated help option" : "declared help option");
            }
        }
        // Unknown paths
        {
            auto path = s.pick(paths);
            path.insert(path.begin() + long(s.draw(path.size() + 1)), "no such command");
            if (s.chance(50))
                path.emplace_back("");
            bool thrown = false;
            out.str({});
            try
            {
                parser.write_subcommand_help_text(path);
            }
            catch (const argos::ArgosException&)
            {
                thrown = true;
            }
            if (!thrown)
                fail("write_subcommand_help_text accepts " + pbt::quote_all(path));
        }
        c.label_if(hidden > 0, "hidden options");
        c.label_if(paths.size() > 1, "sub-commands");
        c.extra_evaluations = n;
        c.nontrivial = total > 3 && p.line_width >= 20;
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C16",
        "Random declarations with custom texts, titles, sections, visibilities, names and texts at "
        "every level; the help text of every command must be exactly the words of "
        "the reference outline, line by line (words may be wrapped, up to the line width), and the help options must write the same bytes. "
        "Non-trivial: more than three arguments, options and commands, compared with the outline.",
        160000, 1000000, run};
    return p;
}
