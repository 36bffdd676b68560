// Ignored undefined options and arguments are returned untouched.
#include <algorithm>
#include "../check.hpp"
#include "../gen.hpp"
#include "../lookup.hpp"

namespace
{
    using namespace spec;

    void all_unprocessed(const Node& n, Strings& out)
    {
        out.insert(out.end(), n.unprocessed.begin(), n.unprocessed.end());
        for (auto& s : n.subs)
            all_unprocessed(s, out);
    }

    void clear_unprocessed(Node& n)
    {
        n.unprocessed.clear();
        for (auto& s : n.subs)
            clear_unprocessed(s);
    }

    bool defined_anywhere(const Cmd& c, const std::string& flag, const Parser& p)
    {
        if (lookup::find_option(c, flag, p.abbrev, p.ci) >= 0)
            return true;
        return std::any_of(c.cmds.begin(), c.cmds.end(),
                           [&](auto& s) { return defined_anywhere(s, flag, p); });
    }

    std::string flag_of(const std::string& t)
    {
        const auto eq = t.find('=');
        return eq == std::string::npos ? t : t.substr(0, eq + 1);
    }

    bool is_subsequence(const Strings& a, const Strings& b)
    {
        size_t i = 0;
        for (auto& x : b)
        {
            if (i < a.size() && a[i] == x)
                ++i;
        }
        return i == a.size();
    }

    void check_filter(const Parser& p, const Strings& tokens, const Node& node)
    {
        // A cluster split by a stop option: known finding.
        if (!is_subsequence(node.unprocessed, tokens))
            return;
        std::vector<std::string> storage{"prog"};
        storage.insert(storage.end(), tokens.begin(), tokens.end());
        std::vector<char*> argv;
        for (auto& t : storage)
            argv.push_back(t.data());
        argv.push_back(nullptr);
        int argc = int(storage.size());
        char** av = argv.data();
        std::ostringstream ss;
        const auto parser = build::make_parser(p, &ss);
        const auto args = parser.parse(argc, av);
        args.filter_parsed_arguments(argc, av);
        Strings got(av, av + argc);
        Strings want{"prog"};
        want.insert(want.end(), node.unprocessed.begin(), node.unprocessed.end());
        if (got != want)
            pbt::fail("filter_parsed_arguments left " + pbt::quote_all(got) + ", expected "
                      + pbt::quote_all(want));
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.ignore_args = 65;
        cfg.ignore_opts = 65;
        cfg.junk = 45;
        cfg.misuse = 30;
        cfg.special = 12;
        cfg.spaces = 2;
        cfg.abbrev = 12;
        const bool metamorphic = s.chance(50);
        if (metamorphic)
        {
            cfg.junk = 0;
            cfg.misuse = 0;
            cfg.mutate = 0;
            cfg.stop_types = false;
            cfg.ignore_opts = 100;
            cfg.ignore_args = 100;
            cfg.multi = 0;
            cfg.no_help = 100;
            cfg.version = 0;
        }
        const auto p = gen::parser(s, cfg);
        const auto f = model::finish(p);
        if (!metamorphic)
        {
            const auto tokens = gen::tokens(s, f, cfg);
            const auto m = check::model_check(p, tokens, c);
            c.nontrivial = m.unknown_tokens > 0 && (p.ignore_args || p.ignore_opts);
            if (!m.failed && p.line_width)
                check_filter(p, tokens, m.node());
            return;
        }
        // Insert undefined tokens between the parts of a command line.
        auto units = gen::units(s, f, cfg);
        // Nothing but arguments after a last-option option
        {
            const Cmd* cmd = &f.cmd;
            bool only_args = false;
            std::vector<gen::Unit> kept;
            for (auto& u : units)
            {
                if (u.kind == 'c')
                {
                    cmd = &cmd->cmds[size_t(u.index)];
                    only_args = false;
                }
                if (u.kind == 'o' && only_args)
                    continue;
                only_args = only_args || (u.kind == 'o'
                            && cmd->opts[size_t(u.index)].type == Type::LAST_OPTION);
                kept.push_back(u);
            }
            units = std::move(kept);
        }
        std::vector<gen::Unit> with;
        Strings undefined;
        static const Strings STD{"-Z", "--zzz", "--zzz=1", "-9", "--unk=", "--u=a=b", "---", "-@"};
        static const Strings SL{"/Z", "/zzz", "/zzz=1", "/9", "/unk=", "/u=a=b", "//x", "/@"};
        static const Strings DA{"-Z", "-zzz", "-zzz=1", "-9", "-unk=", "-u=a=b", "--x", "-@"};
        const auto& pool = p.style == Style::STANDARD ? STD : p.style == Style::SLASH ? SL : DA;
        bool options_end = false;
        std::vector<const Cmd*> chain{&f.cmd};
        for (size_t i = 0; i <= units.size(); ++i)
        {
            if (!options_end && s.chance(30))
            {
                const auto& u = s.pick(pool);
                if (!defined_anywhere(f.cmd, flag_of(u), f))
                {
                    with.push_back({'j', 0, 0, u});
                    undefined.push_back(u);
                }
            }
            if (i == units.size())
                break;
            with.push_back(units[i]);
            if (units[i].kind == 'c')
                chain.push_back(&chain.back()->cmds[size_t(units[i].index)]);
            if (units[i].kind == 'o')
            {
                const auto t = chain.back()->opts[size_t(units[i].index)].type;
                if (t == Type::LAST_OPTION || t == Type::LAST_ARGUMENT)
                    options_end = true;
                if (t == Type::LAST_ARGUMENT)
                    pbt::discard("last-argument option");
            }
        }
        // Undefined arguments can only come after all defined ones.
        size_t given = 0;
        uint64_t hi = 0;
        for (auto& a : chain.back()->args)
            hi += a.hi;
        for (auto& u : units)
            given += u.kind == 'a';
        auto without = units;
        if (chain.back()->cmds.empty() && hi < 20)
        {
            while (given < hi)
            {
                with.push_back({'a', 0, 0, "fill"});
                without.push_back({'a', 0, 0, "fill"});
                ++given;
            }
            const int n = s.range(0, 3);
            for (int i = 0; i < n; ++i)
            {
                auto v = gen::value(s, p, true, cfg);
                with.push_back({'j', 0, 0, v});
                undefined.push_back(v);
            }
        }
        // Same spelling of everything else: spell without clusters being
        // affected by what is inserted.
        const auto t1 = gen::spell(s, f, without);
        const auto t2 = gen::spell(s, f, with);
        check::describe(c, p, t2);
        c.desc << "undefined: " << pbt::quote_all(undefined) << "\nwithout them: "
               << pbt::quote_all(t1) << "\n";
        const auto r1 = check::run(p, f, t1);
        const auto r2 = check::run(p, f, t2);
        c.extra_evaluations = 1;
        if (r1.exception || r2.exception)
            pbt::fail("exception");
        if (r1.node.code == Code::FAILURE)
        {
            if (r2.node.code != Code::FAILURE)
                pbt::fail("undefined tokens turned failure into success");
            c.label("failure either way");
            return;
        }
        Strings got, before;
        all_unprocessed(r2.node, got);
        all_unprocessed(r1.node, before);
        if (!before.empty())
            pbt::fail("unexpected unprocessed arguments: " + pbt::quote_all(before));
        if (got != undefined)
            pbt::fail("unprocessed arguments are " + pbt::quote_all(got) + ", expected "
                      + pbt::quote_all(undefined));
        auto a = r1.node, b = r2.node;
        clear_unprocessed(b);
        const auto d = check::diff(a, b);
        if (!d.empty())
            pbt::fail("undefined tokens changed the result: " + d);
        check_filter(p, t2, r2.node);
        c.label("metamorphic");
        c.nontrivial = !undefined.empty();
    }

    Node parse(const Parser& p, const Strings& t)
    {
        return check::run(p, model::finish(p), t).node;
    }

    Opt flag(const char* f, Type t = Type::NORMAL)
    {
        Opt o;
        o.flags = {f};
        o.type = t;
        return o;
    }

    void split_cluster()
    {
        Parser p;
        p.cmd.name = "prog";
        p.cmd.opts = {flag("-s", Type::STOP), flag("-b")};
        p.ignore_args = true;
        Strings storage{"prog", "u", "-sb", "q", "r"};
        std::vector<char*> argv;
        for (auto& x : storage)
            argv.push_back(x.data());
        int argc = 5;
        char** av = argv.data();
        std::ostringstream ss;
        const auto parser = build::make_parser(p, &ss);
        const auto args = parser.parse(argc, av);
        args.filter_parsed_arguments(argc, av);
        Strings got(av, av + argc);
        if (std::find(got.begin(), got.end(), "r") == got.end())
            pbt::fail("filter_parsed_arguments left " + pbt::quote_all(got));
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C12",
        "Half: random declarations ignoring undefined options and/or arguments with unknown tokens, "
        "compared with the reference model. Half: undefined tokens are inserted between the parts "
        "of a correct command line; the result must be that of the command line without them, and "
        "the unprocessed arguments exactly the inserted tokens. filter_parsed_arguments is checked "
        "in both. Non-trivial: at least one undefined token was ignored.",
        400000, 2000000, run,
        {{"C12-filter-split-cluster", true,
          "filter_parsed_arguments loses all later tokens when a STOP option splits a cluster "
          "(\"u -sb q r\" with undefined arguments ignored leaves only \"u\")", split_cluster}}};
    return p;
}
