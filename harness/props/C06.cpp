// Flags and commands are found by exact, abbreviated and case-insensitive
// name.
#include <algorithm>
#include <cctype>
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    using namespace spec;

    // Letters next to the ends of the ASCII alphabets, letters whose
    // difference is 32 without being a pair, UTF-8 and other bytes.
    const std::vector<std::string> PIECES = {
        "a", "b", "A", "B", "z", "Z", "@", "`", "[", "{", "_", "1", "-", "?",
        "\xc3\xa9", "\xc3\x89", "\xff", "\xdf", "ab", "aB", "file", "o", "O", "\x01", "!", "~", "^", "/"
    };

    std::string piece(pbt::Src& s, int few)
    {
        return few ? PIECES[s.draw(4)] : s.pick(PIECES);
    }

    bool same_char(char a, char b, bool ci)
    {
        if (a == b)
            return true;
        const auto x = static_cast<unsigned char>(a), y = static_cast<unsigned char>(b);
        return ci && x < 128 && y < 128 && std::isalpha(x) && std::isalpha(y)
               && std::tolower(x) == std::tolower(y);
    }

    bool same(const std::string& a, const std::string& b, bool ci)
    {
        return a.size() == b.size()
               && std::equal(a.begin(), a.end(), b.begin(),
                             [&](char x, char y) { return same_char(x, y, ci); });
    }

    struct Found
    {
        int option = -1;
        bool abbreviated = false, recased = false, ambiguous = false, by_eq = false;
    };

    Found find_exact_or_prefix(const Cmd& c, const std::string& flag, bool abbrev, bool ci)
    {
        Found f;
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            for (auto& x : c.opts[i].flags)
            {
                if (same(x, flag, ci))
                {
                    f.option = int(i);
                    f.recased = x != flag;
                    return f;
                }
            }
        }
        if (!abbrev)
            return f;
        int n = 0;
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            for (auto& x : c.opts[i].flags)
            {
                if (x.size() > flag.size() && same(x.substr(0, flag.size()), flag, ci))
                {
                    ++n;
                    f.option = int(i);
                }
            }
        }
        f.abbreviated = n == 1;
        f.ambiguous = n > 1;
        if (n != 1)
            f.option = -1;
        return f;
    }

    Found find(const Cmd& c, const std::string& flag, bool abbrev, bool ci)
    {
        auto f = find_exact_or_prefix(c, flag, abbrev, ci);
        if (f.option >= 0 || flag.size() < 3 || flag.back() != '=')
            return f;
        auto g = find_exact_or_prefix(c, flag.substr(0, flag.size() - 1), abbrev, ci);
        if (g.option >= 0 && c.opts[size_t(g.option)].argument.empty())
            g.option = -1;
        g.by_eq = g.option >= 0;
        return g;
    }

    std::string change(pbt::Src& s, std::string f, size_t keep)
    {
        switch (s.draw(6))
        {
        case 0: break;
        case 1: // a prefix
            if (f.size() > keep + 1)
                f.resize(keep + 1 + s.draw(f.size() - keep - 1));
            break;
        case 2:
            f = gen::random_case(s, f);
            break;
        case 3: // case and prefix
            f = gen::random_case(s, f);
            if (f.size() > keep + 1)
                f.resize(keep + 1 + s.draw(f.size() - keep - 1));
            break;
        case 4:
            f += piece(s, s.draw(2) == 0);
            break;
        default:
            // Flip the bit that separates upper case from lower case
            if (f.size() > keep)
            {
                auto i = keep + s.draw(f.size() - keep);
                f[i] = char(f[i] ^ 32);
                if (f[i] == ' ' || f[i] == '\r' || f[i] == '\n' || f[i] == '\t')
                    f[i] = 'x';
            }
            break;
        }
        return f;
    }

    void commands(pbt::Src& s, pbt::Case& c)
    {
        Parser p;
        p.cmd.name = "prog";
        p.style = Style(s.draw(3));
        p.ci = s.chance(50);
        p.abbrev = s.chance(50);
        p.line_width = 100000;
        const int n = s.range(1, 8);
        const int few = s.chance(50);
        auto valid = [&](const std::string& x)
        {
            return !x.empty() && !model::is_option(x, p.style);
        };
        for (int i = 0; i < n; ++i)
        {
            Cmd sub;
            const int len = s.range(1, 4);
            for (int k = 0; k < len; ++k)
                sub.name += piece(s, few);
            if (!valid(sub.name)
                || std::any_of(p.cmd.cmds.begin(), p.cmd.cmds.end(),
                               [&](auto& x) { return same(x.name, sub.name, p.ci); }))
                continue;
            p.cmd.cmds.push_back(sub);
        }
        if (p.cmd.cmds.empty())
            pbt::discard("no commands");
        auto t = change(s, s.pick(p.cmd.cmds).name, 0);
        if (!valid(t))
            pbt::discard("looks like an option");
        check::describe(c, p, {t});
        const auto r = check::run(p, model::finish(p), {t});
        const Cmd* want = nullptr;
        for (auto& x : p.cmd.cmds)
        {
            if (same(x.name, t, p.ci))
                want = &x;
        }
        if (r.exception)
            pbt::fail("exception: " + *r.exception);
        c.label(want ? "command found" : "no such command");
        c.nontrivial = p.cmd.cmds.size() > 1;
        if (want)
        {
            if (r.node.code != Code::SUCCESS || r.node.subs.size() != 1
                || r.node.subs[0].name != want->name)
                pbt::fail("expected command " + pbt::quote(want->name) + ", got "
                          + describe(r.node) + r.output);
        }
        else if (r.node.code != Code::FAILURE || !r.node.subs.empty())
            pbt::fail("expected an error, got " + describe(r.node));
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        const auto mode = s.draw(10);
        if (mode == 9)
        {
            commands(s, c);
            return;
        }
        if (mode == 8)
        {
            gen::Cfg cfg;
            cfg.ci = 60;
            cfg.abbrev = 70;
            cfg.max_opts = 7;
            cfg.junk = 15;
            const auto p = gen::parser(s, cfg);
            const auto m = check::model_check(p, gen::tokens(s, model::finish(p), cfg), c);
            c.nontrivial = m.options > 0;
            return;
        }
        Parser p;
        p.cmd.name = "prog";
        p.style = Style(s.draw(3));
        p.ci = s.chance(50);
        p.abbrev = s.chance(60);
        p.gen_help = false;
        p.line_width = 100000;
        const int few = s.chance(50);
        const std::string prefix = p.style == Style::SLASH ? "/" : "-";
        const int n = s.range(1, 10);
        auto exists = [&](const std::string& f, const Opt* o)
        {
            auto in = [&](const Opt& x)
            {
                return std::any_of(x.flags.begin(), x.flags.end(),
                                   [&](auto& g) { return same(f, g, p.ci); });
            };
            return std::any_of(p.cmd.opts.begin(), p.cmd.opts.end(), in) || (o && in(*o));
        };
        for (int i = 0; i < n; ++i)
        {
            Opt o;
            o.set_op = true;
            o.op = Op::APPEND;
            o.alias = "ALL";
            if (s.chance(50))
                o.argument = "V";
            else
                o.constant = "#" + std::to_string(i);
            const int nf = s.range(1, 3);
            for (int k = 0; k < nf; ++k)
            {
                std::string f = prefix;
                const bool one = s.chance(20);
                if (p.style == Style::STANDARD && !one)
                    f += "-";
                const int len = s.range(1, 5);
                for (int j = 0; j < (one ? 1 : len); ++j)
                    f += one ? std::string(1, piece(s, few)[0]) : piece(s, few);
                if (!one && !o.argument.empty() && s.chance(25))
                    f += "=";
                if (f.size() < 2 || exists(f, &o))
                    continue;
                o.flags.push_back(f);
            }
            if (!o.flags.empty())
                p.cmd.opts.push_back(o);
        }
        if (p.cmd.opts.empty())
            pbt::discard("no options");
        // The command line, and what it means
        Strings tokens, want;
        std::vector<int> selected;
        bool failure = false;
        std::string error;
        const int probes = s.range(1, 6);
        for (int i = 0; i < probes; ++i)
        {
            std::string f;
            size_t keep = p.style == Style::STANDARD ? 2 : 1;
            const auto& o = s.pick(p.cmd.opts);
            f = s.pick(o.flags);
            const bool eq_flag = f.size() > 2 && f.back() == '=';
            if (eq_flag)
                f.pop_back();
            if (f.size() <= keep)
                keep = 1;
            f = change(s, f, keep);
            if (f.size() < 2 || f[0] != prefix[0])
                continue;
            if (p.style == Style::STANDARD && f.size() > 2 && f[1] != '-')
                f.resize(2);
            if (f.find('=') != std::string::npos)
                continue;
            // (A flag with a single character doesn't combine with '='.)
            const bool with_eq = s.chance(40) && f.size() > (p.style == Style::STANDARD && f[1] != '-' ? 99u : 1u);
            const auto value = std::string("v") + std::to_string(i);
            const auto found = find(p.cmd, with_eq ? f + "=" : f, p.abbrev, p.ci);
            c.label_if(found.abbreviated, "abbreviated");
            c.label_if(found.recased, "changed case");
            c.label_if(found.ambiguous, "ambiguous");
            c.label_if(found.by_eq, "'=' removed");
            if (found.option < 0)
            {
                tokens.push_back(with_eq ? f + "=" + value : f);
                failure = true;
                error = "prog: Unknown option: " + tokens.back();
                c.label("unknown");
                break;
            }
            const auto& x = p.cmd.opts[size_t(found.option)];
            if (with_eq)
                tokens.push_back(f + "=" + value);
            else
                tokens.push_back(f);
            if (x.argument.empty())
                want.push_back(x.constant);
            else
            {
                if (!with_eq)
                    tokens.push_back(value);
                want.push_back(value);
            }
            selected.push_back(found.option);
            c.label("found");
        }
        check::describe(c, p, tokens);
        c.nontrivial = !tokens.empty() && p.cmd.opts.size() > 1;
        std::ostringstream ss;
        auto parser = build::make_parser(p, &ss);
        const auto args = parser.parse(build::views(tokens));
        if (failure)
        {
            if (args.result_code() != argos::ParserResultCode::FAILURE)
                pbt::fail("expected an unknown-option error");
            const auto out = ss.str();
            if (out.compare(0, error.size(), error) != 0)
                pbt::fail("expected " + pbt::quote(error) + ", got " + pbt::quote(out));
            return;
        }
        if (args.result_code() != argos::ParserResultCode::SUCCESS)
            pbt::fail("parsing failed: " + ss.str());
        Strings got;
        for (auto v : args.values("ALL"))
            got.push_back(v.as_string());
        if (got != want)
            pbt::fail("expected " + pbt::quote_all(want) + ", got " + pbt::quote_all(got));
        // Which option each value came from
        size_t k = 0;
        for (auto v : args.values("ALL"))
        {
            const auto& f = p.cmd.opts[size_t(selected[k++])].flags.front();
            if (build::view_name(v.argument().get()) != f)
                pbt::fail("expected the source " + pbt::quote(f) + ", got "
                          + pbt::quote(build::view_name(v.argument().get())));
        }
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C06",
        "80%: 1-10 options with flags made of bytes that are next to, or differ by the same bit as, "
        "ASCII letters, and command lines of exact, truncated, extended and re-cased flags, with "
        "and without '='; the option selected is compared with a linear scan of the flags. 10%: "
        "sub-command names in the same way. 10%: whole command lines against the reference model "
        "with abbreviations and case-insensitivity. Non-trivial: more than one candidate.",
        1200000, 8000000, run};
    return p;
}
