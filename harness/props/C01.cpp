// All spellings of a STANDARD-style command line mean the same.
#include <algorithm>
#include "../check.hpp"
#include "../gen.hpp"
#include "../lookup.hpp"

namespace
{
    using namespace spec;

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.style = 0;
        cfg.junk = 0;
        cfg.mutate = 0;
        cfg.max_opts = 6;
        cfg.misuse = 6;
        cfg.ignore_opts = 3;
        // What is left over after a stop option naturally depends on how it
        // was written.
        cfg.stop_types = s.chance(15);
        cfg.last_types = s.chance(30);
        cfg.special = 12;
        const auto p = gen::parser(s, cfg);
        const auto f = model::finish(p);
        const auto units = gen::units(s, f, cfg);
        gen::SpellStats st1, st2;
        const auto t1 = gen::spell(s, f, units, &st1);
        const auto t2 = gen::spell(s, f, units, &st2);
        check::describe(c, p, t1);
        c.desc << "same as: " << pbt::quote_all(t2) << "\n";

        const auto m1 = model::parse(f, t1);
        const auto m2 = model::parse(f, t2);
        if (m1.unspecified || m2.unspecified)
            pbt::discard("unspecified");
        const auto r1 = check::run(p, f, t1);
        const auto r2 = check::run(p, f, t2);
        c.extra_evaluations = 1;
        check::compare(m1, r1, t1);
        check::compare(m2, r2, t2);
        // Directly, without the model. After a last-option option the rest
        // is text rather than options, and so its spelling matters.
        // And a sibling command's name can be an argument or vice versa.
        const bool text = m1.used_last_option || m2.used_last_option || m1.siblings
                          || m2.siblings
                          || std::any_of(units.begin(), units.end(),
                                         [](auto& u) { return u.kind == 's'; });
        if (!text && r1.node.code != r2.node.code)
            pbt::fail(std::string("the result codes differ: ") + to_string(r1.node.code)
                      + " and " + to_string(r2.node.code));
        if (!text && r1.node.code == Code::SUCCESS && !m1.used_last_argument)
        {
            const auto d = check::diff(r1.node, r2.node);
            if (!d.empty())
                pbt::fail("the spellings give different results: " + d);
        }
        // A value that nobody takes: given to something that has none.
        if (s.chance(12))
        {
            auto t3 = t1;
            std::vector<size_t> dashes;
            for (size_t i = 0; i < t3.size(); ++i)
            {
                if (t3[i].size() > 1 && t3[i][0] == '-' && t3[i].find('=') == std::string::npos)
                    dashes.push_back(i);
            }
            if (!dashes.empty())
            {
                auto& token = t3[s.pick(dashes)];
                token += s.pick(Strings{"=", "=v", "=-x", "==", "=a=b", "=" + token});
                const auto m3 = model::parse(f, t3);
                if (!m3.unspecified)
                {
                    c.desc << "with a value: " << pbt::quote_all(t3) << "\n";
                    check::compare(m3, check::run(p, f, t3), t3);
                    c.label("value added to a token");
                    c.label_if(m3.node().code == Code::FAILURE, "value nobody takes");
                }
            }
        }
        check::label(c, m1);
        const int clustered = st1.clusters + st2.clusters, attached = st1.attached + st2.attached;
        c.label_if(clustered > 0, "concatenated flags");
        c.label_if(attached > 0, "value attached to its flag");
        c.label_if(st1.equals + st2.equals > 0, "--flag=value");
        c.label_if(st1.recased + st2.recased > 0, "changed case");
        c.nontrivial = t1 != t2;
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C01",
        "Random STANDARD declaration and a random sequence of options (with values that often look "
        "like options), arguments and commands, spelt in two random legal ways (clusters, attached "
        "values, --flag=value, abbreviations, changed case). The two parse results are compared "
        "with each other and with the reference model. Non-trivial: the two spellings differ.",
        200000, 2500000, run};
    return p;
}
