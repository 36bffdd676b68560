// Values are the exact history of assign, append and clear operations.
#include <algorithm>
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    using namespace spec;

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.link = 60;
        cfg.append = 40;
        cfg.clear = 35;
        cfg.initial = 30;
        cfg.none = 5;
        cfg.special = 5;
        cfg.max_opts = 7;
        cfg.misuse = 5;
        cfg.junk = 2;
        cfg.sub = 20;
        cfg.mutate = 3;
        const auto p = gen::parser(s, cfg);
        const auto f = model::finish(p);
        auto units = gen::units(s, f, cfg);
        // Longer histories
        std::vector<gen::Unit> more;
        for (auto& u : units)
        {
            more.push_back(u);
            if (u.kind == 'o' && s.chance(30))
                more.push_back(u);
        }
        const auto tokens = gen::spell(s, f, more);
        const auto m = check::model_check(p, tokens, c);
        const auto groups = model::value_groups(f.cmd);
        auto g = groups;
        std::sort(g.begin(), g.end());
        const bool linked = std::adjacent_find(g.begin(), g.end(), [](int a, int b)
                                               { return a == b && a >= 0; }) != g.end();
        c.label_if(linked, "linked definitions");
        c.nontrivial = m.options + m.positionals > 1;
        if (m.failed)
            return;
        // The order in which options are declared is of no importance, unless
        // there are several initial values.
        int initials = 0;
        std::function<void(const Cmd&)> count = [&](const Cmd& cmd)
        {
            int n = 0;
            for (auto& o : cmd.opts)
                n += !o.initial.empty();
            initials = std::max(initials, n);
            for (auto& sub : cmd.cmds)
                count(sub);
        };
        count(p.cmd);
        if (initials > 1)
            return;
        auto q = p;
        std::function<void(Cmd&)> permute = [&](Cmd& cmd)
        {
            for (size_t i = cmd.opts.size(); i > 1; --i)
                std::swap(cmd.opts[i - 1], cmd.opts[s.draw(i)]);
            for (auto& sub : cmd.cmds)
                permute(sub);
        };
        permute(q.cmd);
        const auto qf = model::finish(q);
        const auto a = check::run(p, f, tokens);
        const auto b = check::run(q, qf, tokens);
        c.extra_evaluations = 2;
        c.label("declarations reordered");
        const auto d = check::diff(a.node, b.node);
        if (!d.empty())
            pbt::fail("reordering the declarations changed the result: " + d
                      + "\n" + spec::describe(q));
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C05",
        "Random declarations with ASSIGN, APPEND, CLEAR, constants, initial values and links "
        "through shared flags, names and aliases (chains included); the values under every name "
        "are compared with the replayed history, and with the result for the same options declared "
        "in another order. Non-trivial: at least two options or arguments were processed.",
        220000, 2000000, run};
    return p;
}
