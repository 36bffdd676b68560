#include "gen.hpp"
#include <algorithm>
#include "lookup.hpp"
#include "model.hpp"

namespace gen
{
    using namespace spec;
    using pbt::Src;

    namespace
    {
        const Strings LONG_NAMES = {
            "file", "out", "verbose", "fil", "filter", "output", "color", "no-color",
            "x", "o", "help", "HELP", "version", "Version", "Ver", "a-b", "FILE", "list", "level", "l",
            "depth", "d2", "fi", "co"
        };
        const std::string SHORT_NAMES = "abcfoxyABh1?vzF";
        const Strings CMD_NAMES = {"add", "del", "foo", "bar", "zap", "ad", "Add", "list", "b"};
        const Strings ARG_NAMES = {"FILE", "DIR", "name", "<in>", "N", "[opt]", "file", "x"};
        const Strings ALIASES = {"size", "FILE", "all", "mode", "name"};

        bool taken(const Cmd& c, const std::string& flag, bool ci)
        {
            for (auto& o : c.opts)
            {
                for (auto& f : o.flags)
                {
                    if (lookup::equal(f, flag, ci))
                        return true;
                }
            }
            return false;
        }

        std::string make_flag(Src& s, Style style, bool has_argument)
        {
            const std::string prefix = style == Style::SLASH ? "/" : "-";
            if (s.chance(45))
            {
                std::string f = style == Style::STANDARD ? "--" : prefix;
                if (style == Style::DASH && s.chance(10))
                    f += "-";
                f += s.pick(LONG_NAMES);
                if (has_argument && s.chance(15))
                    f += "=";
                return f;
            }
            if (s.chance(2))
                return style == Style::SLASH ? "//" : "--";
            return prefix + SHORT_NAMES[s.draw(SHORT_NAMES.size())];
        }

        void common(Src& s, Common& c, const Cfg& cfg)
        {
            if (cfg.texts == 0 || !s.chance(unsigned(cfg.texts)))
                return;
            c.help = text(s, 12, true);
            c.help_callback = s.chance(20);
            if (s.chance(25))
                c.section = s.pick(Strings{"OPTIONS", "ARGUMENTS", "Special", "Other things", "COMMANDS"});
            if (s.chance(15))
                c.cur_section = s.pick(Strings{"Special", "More", "OPTIONS", ""});
            if (s.chance(25))
                c.visibility = int(s.draw(4));
            if (s.chance(20))
                c.id = s.range(-3, 5);
        }

        unsigned pct(int v) { return unsigned(v); }

        void options(Src& s, Cmd& c, Parser& p, const Cfg& cfg)
        {
            const int n = s.count(cfg.max_opts, 78);
            for (int i = 0; i < n; ++i)
            {
                Opt o;
                const bool has_argument = s.chance(50);
                if (has_argument)
                    o.argument = s.pick(Strings{"V", "FILE", "<n>", "W"});
                const int nf = 1 + s.count(2, 30);
                for (int j = 0; j < nf; ++j)
                {
                    auto f = make_flag(s, p.style, has_argument);
                    if (taken(c, f, p.ci))
                        continue;
                    bool dup = false;
                    for (auto& g : o.flags)
                        dup = dup || lookup::equal(f, g, p.ci);
                    if (!dup)
                        o.flags.push_back(f);
                }
                if (o.flags.empty())
                    continue;
                if (!has_argument && s.chance(30))
                    o.constant = s.pick(Strings{"c", "0", "yes", "two words", "1", "25", "5000000000"});
                if (s.chance(pct(cfg.append)) && (has_argument || !o.constant.empty()))
                {
                    o.op = Op::APPEND;
                    o.set_op = true;
                }
                else if (!has_argument && o.constant.empty() && s.chance(pct(cfg.clear)))
                {
                    o.op = Op::CLEAR;
                    o.set_op = true;
                }
                else if (o.constant.empty() && s.chance(pct(cfg.none)))
                {
                    o.op = Op::NONE;
                    o.set_op = true;
                }
                else if (s.chance(10))
                    o.set_op = true;
                if (s.chance(pct(cfg.special)))
                {
                    std::vector<Type> types;
                    if (cfg.stop_types)
                        types.insert(types.end(), {Type::STOP, Type::HELP, Type::EXIT});
                    if (cfg.last_types)
                    {
                        types.push_back(Type::LAST_ARGUMENT);
                        if (c.cmds.empty())
                            types.push_back(Type::LAST_OPTION);
                    }
                    if (!types.empty())
                        o.type = s.pick(types);
                }
                if (o.op != Op::CLEAR && o.op != Op::NONE && s.chance(pct(cfg.mandatory)))
                    o.mandatory = true;
                if (o.op != Op::NONE && s.chance(pct(cfg.initial)))
                    o.initial = s.pick(Strings{"init", "7", "a b"});
                if (o.op != Op::NONE && s.chance(pct(cfg.link)))
                {
                    // Linked with an argument or another option
                    Strings names = ALIASES;
                    for (auto& a : c.args)
                        names.push_back(a.name);
                    for (auto& x : c.opts)
                    {
                        if (x.op != Op::NONE)
                            names.insert(names.end(), x.flags.begin(), x.flags.end());
                    }
                    o.alias = s.pick(names);
                }
                o.has_callback = s.chance(pct(cfg.callbacks));
                common(s, o, cfg);
                c.opts.push_back(std::move(o));
            }
        }

        void command(Src& s, Cmd& c, Parser& p, const Cfg& cfg, int depth)
        {
            if (depth > 0 && s.chance(pct(cfg.sub)))
            {
                const int n = 1 + s.count(2, 60);
                for (int i = 0; i < n; ++i)
                {
                    Cmd sub;
                    sub.name = s.pick(CMD_NAMES);
                    if (lookup::find_command(c, sub.name, p.ci))
                        continue;
                    command(s, sub, p, cfg, depth - 1);
                    if (cfg.texts)
                    {
                        Common cm;
                        common(s, cm, cfg);
                        cm.help_callback = false;
                        static_cast<Common&>(sub) = cm;
                    }
                    c.cmds.push_back(std::move(sub));
                }
                c.multi = s.chance(pct(cfg.multi));
                if (s.chance(pct(cfg.require_set)))
                    c.require = s.chance(50);
            }
            else
            {
                const int n = s.count(cfg.max_args, 65);
                for (int i = 0; i < n; ++i)
                {
                    Arg a;
                    a.name = s.pick(ARG_NAMES);
                    if (s.chance(pct(cfg.variable)))
                    {
                        a.set_count = true;
                        a.lo = unsigned(s.draw(3));
                        a.hi = a.lo + unsigned(s.draw(4));
                        if (s.chance(5))
                            a.hi = 0xFFFFFFFFu;
                        if (a.hi == 0)
                            a.hi = 1;
                    }
                    if (s.chance(15))
                    {
                        const bool optional = s.chance(60);
                        if (optional || a.lo > 0 || a.hi > 0)
                            a.set_optional = optional;
                    }
                    if (s.chance(pct(cfg.link)))
                        a.alias = s.pick(ALIASES);
                    a.has_callback = s.chance(pct(cfg.callbacks));
                    common(s, a, cfg);
                    c.args.push_back(std::move(a));
                }
                if (s.chance(3))
                    c.require = false;
            }
            options(s, c, p, cfg);
        }
    }

    namespace
    {
        void vary(Src& s, Cmd& c)
        {
            for (auto& a : c.args)
                a.how = unsigned(s.draw(64));
            for (auto& o : c.opts)
                o.how = unsigned(s.draw(64));
            for (auto& sub : c.cmds)
            {
                sub.how = unsigned(s.draw(64));
                vary(s, sub);
            }
        }
    }

    Parser parser(Src& s, const Cfg& cfg)
    {
        Parser p;
        p.cmd.name = "prog";
        p.style = cfg.style >= 0 ? Style(cfg.style) : Style(s.draw(3));
        p.ci = s.chance(pct(cfg.ci));
        p.abbrev = s.chance(pct(cfg.abbrev));
        p.gen_help = !s.chance(pct(cfg.no_help));
        if (s.chance(pct(cfg.version)))
            p.version = s.pick(Strings{"1.2", "", "v 3"});
        p.ignore_args = s.chance(pct(cfg.ignore_args));
        p.ignore_opts = s.chance(pct(cfg.ignore_opts));
        p.line_width = 100000;
        command(s, p.cmd, p, cfg, cfg.max_depth);
        if (cfg.callbacks)
        {
            p.arg_callback = s.chance(60);
            p.opt_callback = s.chance(60);
        }
        if (s.chance(30))
        {
            p.how = unsigned(s.draw(16));
            p.cmd.how = unsigned(s.draw(64));
            vary(s, p.cmd);
        }
        return p;
    }

    std::string value(Src& s, const Parser& p, bool positional, const Cfg& cfg)
    {
        static const Strings PLAIN = {"a", "b", "foo", "1", "42", "x=y", "file.txt", "c", "zz"};
        static const Strings ODD = {"", "=", "a=", "-", "/", "=v", "\xc3\xa9", "\\", "\"q\"", "0"};
        static const Strings HOSTILE = {"-a", "--", "-5", "--file", "/a", "-x", "--out=1", "/x=y",
                                        "-ab", "---", "/?", "--help", "-h"};
        static const Strings SPACES = {"a b", " ", "x\ty", "l\nm"};
        const auto k = s.draw(100);
        std::string v;
        if (k < 65)
            v = s.pick(PLAIN);
        else if (k < 80)
            v = s.pick(ODD);
        else if (k < 90 && cfg.hostile_values)
            v = s.pick(HOSTILE);
        else if (k < unsigned(90 + cfg.spaces))
            v = s.pick(SPACES);
        else
            v = s.pick(CMD_NAMES);
        if (positional && model::is_option(v, p.style))
            v = "p" + v;
        return v;
    }

    namespace
    {
        bool is_special(Type t) { return t != Type::NORMAL; }

        std::string junk(Src& s, Style style)
        {
            static const Strings STD = {"-Z", "--zzz", "--zzz=1", "-", "--", "-9", "--unk=", "-Zx",
                                        "--fil=", "--he", "-=", "--=", "--=x", "---x", "-a=1", "extra",
                                        "nocmd"};
            static const Strings SL = {"/Z", "/zzz", "/zzz=1", "/", "//", "/9", "/unk=", "/=", "/=x",
                                       "/fil=", "/he", "-a", "--zzz", "extra", "nocmd"};
            static const Strings DA = {"-Z", "-zzz", "-zzz=1", "-", "--", "-9", "-unk=", "-=", "-=x",
                                       "-fil=", "-he", "/a", "--zzz", "extra", "nocmd"};
            return s.pick(style == Style::STANDARD ? STD : style == Style::SLASH ? SL : DA);
        }
    }

    std::vector<Unit> units(Src& s, const Parser& p, const Cfg& cfg)
    {
        std::vector<Unit> result;
        std::vector<const Cmd*> chain{&p.cmd};
        for (int guard = 0; guard < 8; ++guard)
        {
            const auto& c = *chain.back();
            std::vector<Unit> us;
            // Arguments
            if (c.cmds.empty())
            {
                uint64_t lo = 0, hi = 0;
                for (auto& a : c.args)
                {
                    lo += a.lo;
                    hi += a.hi;
                }
                int n;
                if (s.chance(pct(cfg.misuse)))
                    n = int(s.draw(std::min<uint64_t>(hi + 3, 9)));
                else
                    n = int(lo + s.draw(std::min<uint64_t>(hi - lo + 1, 5)));
                for (int i = 0; i < n; ++i)
                    us.push_back({'a', 0, 0, value(s, p, true, cfg)});
            }
            // Options
            auto add_option = [&](int i)
            {
                Unit u{'o', i, 0, {}};
                auto& o = c.opts[size_t(i)];
                if (!o.argument.empty())
                    u.value = value(s, p, false, cfg);
                size_t pos = us.size() - s.draw(us.size() + 1);
                us.insert(us.begin() + long(pos), u);
            };
            for (size_t i = 0; i < c.opts.size(); ++i)
            {
                if (c.opts[i].mandatory && !s.chance(pct(cfg.misuse / 3 + 1)))
                    add_option(int(i));
            }
            if (!c.opts.empty())
            {
                const int n = s.count(5, 62);
                for (int k = 0; k < n; ++k)
                {
                    const auto i = s.draw(c.opts.size());
                    if (is_special(c.opts[i].type) && !s.chance(pct(cfg.use_special)))
                        continue;
                    add_option(int(i));
                }
            }
            if (s.chance(pct(cfg.junk)))
            {
                size_t pos = us.size() - s.draw(us.size() + 1);
                us.insert(us.begin() + long(pos), Unit{'j', 0, 0, junk(s, p.style)});
            }
            result.insert(result.end(), us.begin(), us.end());
            if (!c.cmds.empty())
            {
                if (s.chance(pct(cfg.misuse / 3 + 1)))
                    break;
                const int i = int(s.draw(c.cmds.size()));
                result.push_back({'c', i, 0, {}});
                chain.push_back(&c.cmds[size_t(i)]);
                continue;
            }
            int level = -1;
            for (size_t i = 0; i + 1 < chain.size(); ++i)
            {
                if (chain[i]->multi)
                    level = int(i);
            }
            if (level < 0 || !s.chance(55))
                break;
            auto& anc = *chain[size_t(level)];
            const int i = int(s.draw(anc.cmds.size()));
            result.push_back({'s', i, level, {}});
            chain.resize(size_t(level) + 1);
            chain.push_back(&anc.cmds[size_t(i)]);
        }
        return result;
    }

    std::string random_case(Src& s, std::string t)
    {
        for (auto& c : t)
        {
            if (c >= 'a' && c <= 'z' && s.chance(50))
                c = char(c - 'a' + 'A');
            else if (c >= 'A' && c <= 'Z' && s.chance(50))
                c = char(c - 'A' + 'a');
        }
        return t;
    }

    Strings spell(Src& s, const Parser& p, const std::vector<Unit>& us, SpellStats* stats,
                  size_t break_after, size_t* break_pos)
    {
        SpellStats dummy;
        auto& st = stats ? *stats : dummy;
        Strings out;
        std::vector<const Cmd*> chain{&p.cmd};
        bool open = false; // the last token is a cluster that can be extended
        auto recase = [&](const std::string& t)
        {
            if (!p.ci || !s.chance(40))
                return t;
            st.recased++;
            return random_case(s, t);
        };
        for (size_t ui = 0; ui < us.size(); ++ui)
        {
            if (break_pos && ui == break_after + 1)
            {
                open = false;
                *break_pos = out.size();
            }
            const auto& u = us[ui];
            const auto& c = *chain.back();
            if (u.kind == 'a' || u.kind == 'j')
            {
                out.push_back(u.value);
                open = false;
                continue;
            }
            if (u.kind == 'c' || u.kind == 's')
            {
                if (u.kind == 's')
                    chain.resize(size_t(u.level) + 1);
                const auto& sub = chain.back()->cmds[size_t(u.index)];
                out.push_back(recase(sub.name));
                chain.push_back(&sub);
                open = false;
                continue;
            }
            const auto& o = c.opts[size_t(u.index)];
            const bool has_value = !o.argument.empty();
            std::string f = o.flags[s.draw(o.flags.size())];
            const bool is_short = f.size() == 2 && !(p.style == Style::STANDARD && f[1] == '-');
            const bool last_type = o.type == Type::LAST_OPTION || o.type == Type::LAST_ARGUMENT;
            if (is_short && p.style == Style::STANDARD)
            {
                f = recase(f);
                const bool join = open && s.chance(50);
                if (join)
                {
                    out.back() += f[1];
                    st.clusters++;
                }
                else
                    out.push_back(f);
                open = !has_value && !last_type;
                if (has_value)
                {
                    if (!u.value.empty() && s.chance(45))
                    {
                        out.back() += u.value;
                        st.attached++;
                    }
                    else
                    {
                        out.push_back(u.value);
                        st.separate++;
                    }
                }
                continue;
            }
            open = false;
            std::string base = f;
            const bool ends_with_eq = f.size() > 2 && f.back() == '=';
            if (ends_with_eq)
                base.pop_back();
            if (p.abbrev && base.size() > 3 && s.chance(40))
            {
                const auto len = 3 + s.draw(base.size() - 3);
                const auto b = base.substr(0, len);
                if (lookup::find_flag(c, b, true, p.ci) == u.index)
                {
                    base = b;
                    st.abbreviated++;
                }
            }
            base = recase(base);
            if (!has_value)
            {
                out.push_back(base);
                continue;
            }
            const bool eq_ok = base.find('=') == std::string::npos
                               && lookup::find_option(c, base + "=", p.abbrev, p.ci) == u.index
                               && base.size() >= (p.style == Style::STANDARD ? 3u : 2u);
            const bool sep_ok = lookup::find_flag(c, base, p.abbrev, p.ci) == u.index;
            if (eq_ok && (!sep_ok || s.chance(50)))
            {
                out.push_back(base + "=" + u.value);
                st.equals++;
            }
            else if (sep_ok)
            {
                out.push_back(base);
                out.push_back(u.value);
                st.separate++;
            }
            else
            {
                // Both "--x" and "--x=" are declared by different options.
                out.push_back(f + u.value);
            }
        }
        if (break_pos && break_after + 1 >= us.size())
            *break_pos = out.size();
        return out;
    }

    Strings tokens(Src& s, const Parser& finished, const Cfg& cfg)
    {
        auto t = spell(s, finished, units(s, finished, cfg));
        if (cfg.mutate && !t.empty() && s.chance(pct(cfg.mutate)))
        {
            const auto i = t.size() - 1 - s.draw(t.size());
            switch (s.draw(4))
            {
            case 0: t.pop_back(); break;
            case 1: t.erase(t.begin() + long(i)); break;
            case 2: t.insert(t.begin() + long(i), t[i]); break;
            default: std::swap(t[i], t[s.draw(t.size())]); break;
            }
        }
        return t;
    }

    std::string word(Src& s)
    {
        static const Strings WORDS = {
            "a", "the", "file", "option", "Lorem", "ipsum", "value", "x", "of", "some",
            "internationalization", "well-known", "path/to/file", "\xc3\xa6\xc3\xb8\xc3\xa5",
            "na\xc3\xafve", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e", "\xf0\x9f\x98\x80", "1234567890",
            "supercalifragilisticexpialidocious", "(parenthesis)", "[brackets]", "\"quoted\"", "end.",
            "multi-part-hyphenated-word", "-", "--flag", "e.g.", "\xc3\xa9t\xc3\xa9"
        };
        return s.pick(WORDS);
    }

    std::string text(Src& s, int max_words, bool newlines)
    {
        std::string r;
        const int n = s.range(0, max_words);
        for (int i = 0; i < n; ++i)
        {
            if (i > 0)
                r += newlines && s.chance(8) ? "\n" : " ";
            r += word(s);
        }
        return r;
    }

    namespace
    {
        const Strings TITLES = {"OPTIONS", "ARGUMENTS", "COMMANDS", "Special", "Other things", "More", "",
                                "A\nB", "\xc3\x86 \xc3\x98"};

        std::string some_text(Src& s, int max_words)
        {
            return s.chance(10) ? "" : text(s, max_words, true);
        }

        void decorate(Src& s, Common& c)
        {
            if (s.chance(60))
            {
                c.help = some_text(s, 8);
                c.help_callback = s.chance(20);
            }
            if (s.chance(20))
                c.section = s.pick(TITLES);
            if (s.chance(20))
                c.cur_section = s.pick(TITLES);
            if (s.chance(35))
                c.visibility = int(s.draw(4));
        }

        void decorate(Src& s, Cmd& c)
        {
            for (auto& a : c.args)
            {
                decorate(s, a);
                if (s.chance(15))
                    a.name = s.pick(Strings{"<A> <B>", "[C]", "a b", "<", "[", "\xc3\xa6", "-", "X<Y>",
                                            "internationalization-of-everything-there-is"});
                if (s.chance(20))
                {
                    a.set_count = true;
                    a.lo = unsigned(s.range(0, 4));
                    a.hi = a.lo + unsigned(s.range(0, 3));
                    a.set_optional.reset();
                    if (a.hi == 0)
                        a.hi = 1;
                }
            }
            for (auto& o : c.opts)
            {
                decorate(s, o);
                if (!o.argument.empty() && s.chance(15))
                    o.argument = s.pick(Strings{"<n>", "a b", "<a> <b>", "=", "[x]", "\xc3\xb8", "N<M>"});
            }
            for (auto& sub : c.cmds)
            {
                decorate(s, static_cast<Common&>(sub));
                sub.help_callback = false;
                decorate(s, sub);
            }
            if (s.chance(30))
            {
                for (int i = s.range(1, 5); i > 0; --i)
                {
                    auto t = Text(s.draw(10));
                    c.texts[t] = some_text(s, 8);
                }
                c.text_callbacks = s.chance(25);
            }
            if (s.chance(20))
                c.last_section = s.pick(TITLES);
            if (c.order.empty() && s.chance(30))
            {
                for (size_t i = 0; i < c.args.size(); ++i)
                    c.order.emplace_back('a', int(i));
                for (size_t i = 0; i < c.opts.size(); ++i)
                    c.order.emplace_back('o', int(i));
                for (size_t i = 0; i < c.cmds.size(); ++i)
                    c.order.emplace_back('c', int(i));
                // Interleaves, but keeps the order within each kind
                for (int i = 0; i < 6; ++i)
                {
                    if (c.order.size() < 2)
                        break;
                    const auto j = s.draw(c.order.size() - 1);
                    if (c.order[j].first != c.order[j + 1].first)
                        std::swap(c.order[j], c.order[j + 1]);
                }
            }
        }
    }

    void decorate(Src& s, Parser& p)
    {
        decorate(s, p.cmd);
        p.cmd.help.reset();
        p.cmd.section.reset();
        p.cmd.cur_section.reset();
    }
}
