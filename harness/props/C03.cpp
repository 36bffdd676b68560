// Arguments are distributed over positional arguments in order and in full.
#include <algorithm>
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    using namespace spec;

    const Cmd& last_command(const Cmd& c, const Node& n, const Node*& out)
    {
        out = &n;
        if (n.subs.empty())
            return c;
        for (auto& sub : c.cmds)
        {
            if (sub.name == n.subs.back().name)
                return last_command(sub, n.subs.back(), out);
        }
        pbt::fail("unknown sub-command in result");
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.max_args = 5;
        cfg.variable = 75;
        cfg.max_opts = 4;
        cfg.sub = 12;
        cfg.link = 0;
        cfg.misuse = 25;
        cfg.junk = 3;
        cfg.mandatory = 4;
        cfg.mutate = 4;
        cfg.stop_types = s.chance(25);
        auto p = gen::parser(s, cfg);
        // Every argument has its own list.
        std::function<void(Cmd&)> rename = [&](Cmd& cmd)
        {
            int n = 0;
            for (auto& a : cmd.args)
                a.name = "A" + std::to_string(n++);
            for (auto& sub : cmd.cmds)
                rename(sub);
        };
        rename(p.cmd);
        const auto f = model::finish(p);
        const auto units = gen::units(s, f, cfg);
        const auto tokens = gen::spell(s, f, units);
        const auto m = check::model_check(p, tokens, c);
        c.nontrivial = m.positionals > 1;

        // Directly: the limits and the order.
        const auto r = check::run(p, f, tokens);
        if (r.node.code == Code::SUCCESS)
        {
            const Node* n = nullptr;
            const auto& cmd = last_command(f.cmd, r.node, n);
            Strings all;
            size_t total = 0, lo = 0;
            for (auto& a : cmd.args)
            {
                lo += a.lo;
                total += n->values.at(a.name).size();
            }
            size_t surplus = total - lo;
            for (auto& a : cmd.args)
            {
                const auto& v = n->values.at(a.name);
                if (v.size() < a.lo || v.size() > a.hi)
                    pbt::fail(a.name + " got " + std::to_string(v.size()) + " values");
                const auto want = a.lo + std::min<size_t>(surplus, a.hi - a.lo);
                if (v.size() != want)
                    pbt::fail(a.name + " got " + std::to_string(v.size()) + " values, not "
                              + std::to_string(want));
                surplus -= want - a.lo;
                all.insert(all.end(), v.begin(), v.end());
            }
            if (!f.ignore_args && !m.used_last_option)
            {
                // The arguments given are those of the units after the last
                // command name.
                Strings given;
                bool plain = true;
                for (auto& u : units)
                {
                    if (u.kind == 's')
                        plain = false; // may be an argument
                    if (u.kind == 'c')
                        given.clear();
                    else if (u.kind == 'a')
                        given.push_back(u.value);
                    else if (u.kind == 'j')
                        plain = false;
                }
                if (plain && m.siblings == 0 && !m.used_last_argument && all != given)
                    pbt::fail("gave " + pbt::quote_all(given) + ", got " + pbt::quote_all(all));
            }
        }
        // Moving the options elsewhere doesn't change the distribution.
        if (f.cmd.cmds.empty() && !m.failed && !m.used_stop && !m.used_last_argument
            && !m.used_last_option)
        {
            std::vector<gen::Unit> args, opts, mixed;
            bool plain = true;
            for (auto& u : units)
            {
                (u.kind == 'a' ? args : opts).push_back(u);
                plain = plain && u.kind != 'j';
            }
            if (!plain)
                return;
            size_t i = 0, j = 0;
            while (i < args.size() || j < opts.size())
            {
                if (j == opts.size() || (i < args.size() && s.chance(50)))
                    mixed.push_back(args[i++]);
                else
                    mixed.push_back(opts[j++]);
            }
            const auto t2 = gen::spell(s, f, mixed);
            const auto r2 = check::run(p, f, t2);
            c.extra_evaluations++;
            c.label("options moved");
            auto d = check::diff(r.node, r2.node);
            if (!d.empty())
                pbt::fail("moving options changed the result: " + d + "\nsecond command line: "
                          + pbt::quote_all(t2));
        }
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C03",
        "Random declarations with up to five positional arguments with random minimum and maximum "
        "counts, numbers of arguments inside and outside the limits, options interleaved anywhere. "
        "Compared with the reference model, with the greedy distribution computed from the limits, "
        "with the list of arguments given, and with the same command line with its options moved. "
        "Non-trivial: at least two positional arguments were given.",
        220000, 2000000, run};
    return p;
}
