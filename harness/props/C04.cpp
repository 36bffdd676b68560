// Parsing succeeds exactly when every declared constraint is satisfied.
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.mandatory = 30;
        cfg.misuse = 30;
        cfg.junk = 10;
        const auto p = gen::parser(s, cfg);
        const auto tokens = gen::tokens(s, model::finish(p), cfg);
        const auto m = check::model_check(p, tokens, c);
        c.nontrivial = !tokens.empty() && (m.failed || m.options + m.positionals + m.commands > 2);
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C04",
        "Random declaration (option style, arguments with counts, options of every operation and "
        "type, nested and multiple sub-commands, settings) and a random walk over it as command "
        "line, with deliberate omissions, surplus arguments and unknown tokens. Non-trivial: the "
        "command line is not empty and either breaks a constraint or has at least two processed "
        "items.",
        900000, 3000000, run};
    return p;
}
