// Sub-commands receive exactly their own options and arguments.
#include "../check.hpp"
#include "../gen.hpp"
#include "../lookup.hpp"

namespace
{
    using namespace spec;

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.sub = 85;
        cfg.multi = 65;
        cfg.max_depth = 3;
        cfg.initial = 30;
        cfg.max_opts = 3;
        cfg.mandatory = 8;
        cfg.misuse = 10;
        cfg.special = 15;
        cfg.junk = 5;
        cfg.stop_types = s.chance(30);
        const auto p = gen::parser(s, cfg);
        const auto f = model::finish(p);
        const auto tokens = gen::tokens(s, f, cfg);
        const auto m = check::model_check(p, tokens, c);
        c.nontrivial = m.commands > 1;
        c.label_if(m.commands > 2, "several commands");

        // Metamorphic: "prog A... sub B..." gives sub exactly what a program
        // having sub's declarations gets from B.
        if (m.failed || m.used_stop || m.commands != 2 || m.siblings || f.cmd.multi || p.version)
            return;
        const auto r = check::run(p, f, tokens);
        size_t n_before = 0; // tokens up to and including the command's name
        // The command name is the first positional token: find it by asking
        // how many tokens the part before it has.
        for (size_t i = 0; i < tokens.size(); ++i)
        {
            Strings head(tokens.begin(), tokens.begin() + long(i) + 1);
            const auto mm = model::parse(f, head);
            if (mm.commands == 2)
            {
                n_before = i + 1;
                break;
            }
        }
        const auto* sub = lookup::find_command(p.cmd, r.node.subs.at(0).name, p.ci);
        auto q = p;
        q.cmd = *sub;
        const Strings tail(tokens.begin() + long(n_before), tokens.end());
        const auto r2 = check::run(q, model::finish(q), tail);
        c.extra_evaluations = 1;
        c.label("compared with the sub-command as a program");
        const auto d = check::diff(r.node.subs[0], r2.node);
        if (!d.empty())
            pbt::fail("the sub-command's result differs from that of a program with the same "
                      "declarations: " + d);
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C10",
        "Random declarations with up to three levels of sub-commands, 65% of which allow several, "
        "and command lines that enter them, repeat them and switch between siblings. Compared with "
        "the reference model; a single sub-command is also compared with a program having the same "
        "declarations. Non-trivial: at least one sub-command was started.",
        500000, 2500000, run};
    return p;
}
