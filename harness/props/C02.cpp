// SLASH and DASH style command lines are split into flags and values
// correctly.
#include <algorithm>
#include "../check.hpp"
#include "../gen.hpp"
#include "../lookup.hpp"

namespace
{
    using namespace spec;

    std::string translate(const std::string& t, char from, char to)
    {
        return t.size() > 1 && t[0] == from ? to + t.substr(1) : t;
    }

    void translate(Cmd& c, char from, char to)
    {
        for (auto& o : c.opts)
        {
            for (auto& f : o.flags)
                f = translate(f, from, to);
            o.alias = translate(o.alias, from, to);
        }
        for (auto& sub : c.cmds)
            translate(sub, from, to);
    }

    void translate(Node& n, char from, char to)
    {
        auto map = [&](std::map<std::string, Strings>& m)
        {
            std::map<std::string, Strings> r;
            for (auto& [k, v] : m)
            {
                auto w = v;
                for (auto& x : w)
                    x = translate(x, from, to);
                r[translate(k, from, to)] = w;
            }
            m = r;
        };
        map(n.values);
        map(n.sources);
        if (n.stop_flags)
        {
            for (auto& f : *n.stop_flags)
                f = translate(f, from, to);
        }
        for (auto& u : n.unprocessed)
            u = translate(u, from, to);
        for (auto& s : n.subs)
            translate(s, from, to);
    }

    // The same command line with the other style's prefix.
    void other_style(const Parser& p, const Parser& f, const Strings& tokens,
                     const check::Run& r, const model::Parsed& m)
    {
        const char from = p.style == Style::SLASH ? '/' : '-';
        const char to = from == '/' ? '-' : '/';
        auto q = p;
        q.style = p.style == Style::SLASH ? Style::DASH : Style::SLASH;
        translate(q.cmd, from, to);
        const auto qf = model::finish(q);
        auto t = tokens;
        for (auto& x : t)
            x = translate(x, from, to);
        const auto r2 = check::run(q, qf, t);
        if (r2.exception)
            pbt::fail("the translated declaration was rejected: " + *r2.exception);
        auto n = r2.node;
        translate(n, to, from);
        if (m.failed)
        {
            const auto d = check::diff_codes(r.node, n);
            if (!d.empty())
                pbt::fail("SLASH and DASH disagree: " + d);
            return;
        }
        const auto d = check::diff(r.node, n);
        if (!d.empty())
            pbt::fail("SLASH and DASH disagree: " + d + "\n" + describe(n));
        (void)f;
    }

    // Tokens consumed one after another by what was visited: conservation of
    // tokens, without the model of the grammar.
    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.style = 1 + int(s.draw(2));
        cfg.max_opts = 6;
        cfg.misuse = 10;
        cfg.special = 25;
        const bool compare_styles = s.chance(30);
        if (compare_styles)
        {
            cfg.junk = 0;
            cfg.version = 0;
            cfg.no_help = 100;
            cfg.hostile_values = false;
        }
        const auto p = gen::parser(s, cfg);
        const auto f = model::finish(p);
        const auto tokens = gen::tokens(s, f, cfg);
        check::describe(c, p, tokens);
        const auto m = model::parse(f, tokens);
        if (m.unspecified)
            pbt::discard("unspecified");
        const auto r = check::run(p, f, tokens);
        check::compare(m, r, tokens);
        check::label(c, m);

        // No value may be anything else than a token, the part of a token
        // after '=', a constant or an initial value.
        if (!m.failed)
        {
            std::vector<std::string> legal = tokens;
            for (auto& t : tokens)
            {
                if (const auto eq = t.find('='); eq != std::string::npos)
                    legal.push_back(t.substr(eq + 1));
            }
            std::function<void(const Cmd&, const Node&)> visit = [&](const Cmd& cmd, const Node& n)
            {
                auto ok = legal;
                for (auto& o : cmd.opts)
                {
                    ok.push_back(o.constant);
                    ok.push_back(o.initial);
                }
                for (auto& [k, v] : n.values)
                {
                    for (auto& x : v)
                    {
                        if (std::find(ok.begin(), ok.end(), x) == ok.end())
                            pbt::fail("value " + pbt::quote(x) + " of " + k
                                      + " isn't part of the command line");
                    }
                }
                for (auto& u : n.unprocessed)
                {
                    if (std::find(tokens.begin(), tokens.end(), u) == tokens.end())
                        pbt::fail("unprocessed " + pbt::quote(u) + " isn't on the command line");
                }
                for (auto& sub : n.subs)
                    visit(*lookup::find_command(cmd, sub.name, p.ci), sub);
            };
            visit(f.cmd, r.node);
        }
        // (After a last-option option, options are text.)
        if (compare_styles && !m.used_last_option && std::none_of(tokens.begin(), tokens.end(), [&](auto& t)
            {
                return t.size() > 1 && t[0] == (p.style == Style::SLASH ? '-' : '/');
            }))
        {
            c.label("compared with the other style");
            c.extra_evaluations = 1;
            other_style(p, f, tokens, r, m);
        }
        c.nontrivial = m.options > 0 && tokens.size() > 1;
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C02",
        "Random SLASH or DASH declaration and command line (flags with and without values, "
        "'flag=value', values that look like options, empty strings, last-option markers, unknown "
        "tokens). Compared with the reference model; every value must occur on the command line; "
        "30% are translated to the other style and must give the same result. Non-trivial: at "
        "least one option was processed and there is more than one token.",
        900000, 3000000, run};
    return p;
}
