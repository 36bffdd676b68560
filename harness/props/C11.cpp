// Stop, help, exit and last-argument options end parsing losslessly.
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    using namespace spec;

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.special = 60;
        cfg.use_special = 75;
        cfg.no_help = 20;
        cfg.version = 20;
        cfg.junk = 12;
        cfg.misuse = 20;
        cfg.mandatory = 12;
        auto p = gen::parser(s, cfg);
        const auto f = model::finish(p);
        auto tokens = gen::tokens(s, f, cfg);
        if (s.chance(15))
        {
            static const Strings STD{"-h", "--help", "--version"}, SL{"/?", "/VERSION"},
                DA{"-h", "-help", "-version"};
            const auto& list = p.style == Style::STANDARD ? STD : p.style == Style::SLASH ? SL : DA;
            tokens.insert(tokens.begin() + long(tokens.size() - s.draw(tokens.size() + 1)), s.pick(list));
        }
        const auto m = check::model_check(p, tokens, c);
        c.nontrivial = m.used_stop || m.used_last_argument || m.used_last_option;
        if (!m.used_stop)
            return;
        // Whatever follows is of no importance, except that it is returned.
        const auto r1 = check::run(p, f, tokens);
        auto extra = tokens;
        Strings tail;
        const int n = s.range(1, 3);
        for (int i = 0; i < n; ++i)
        {
            tail.push_back(gen::value(s, p, false, cfg));
            extra.push_back(tail.back());
        }
        const auto r2 = check::run(p, f, extra);
        c.extra_evaluations = 2;
        auto n1 = r1.node;
        Node* last = &n1;
        while (!last->subs.empty())
            last = &last->subs.back();
        last->unprocessed.insert(last->unprocessed.end(), tail.begin(), tail.end());
        const auto d = check::diff(n1, r2.node);
        // More arguments after the stop option can't change how those before
        // it are distributed.
        if (!d.empty())
            pbt::fail("tokens after the stop option " + pbt::quote_all(tail)
                      + " changed the result: " + d);
        if (r1.output != r2.output)
            pbt::fail("tokens after the stop option changed the output");
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C11",
        "Random declarations in which most options have a special type, and command lines that use "
        "them, with anything following. Compared with the reference model, and with the same "
        "command line with more tokens at the end. Non-trivial: a stop, help, exit, last-argument "
        "or last-option option was processed.",
        500000, 2500000, run};
    return p;
}
