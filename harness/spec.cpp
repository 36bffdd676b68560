#include "spec.hpp"
#include <sstream>
#include "engine.hpp"

namespace spec
{
    using pbt::quote;
    using pbt::quote_all;

    const char* to_string(Code c)
    {
        switch (c)
        {
        case Code::NONE: return "NONE";
        case Code::SUCCESS: return "SUCCESS";
        case Code::STOP: return "STOP";
        case Code::FAILURE: return "FAILURE";
        }
        return "?";
    }

    namespace
    {
        void common(std::ostream& s, const Common& c)
        {
            if (c.cur_section)
                s << " cur_section=" << quote(*c.cur_section);
            if (c.section)
                s << " section=" << quote(*c.section);
            if (!c.alias.empty())
                s << " alias=" << quote(c.alias);
            if (c.visibility)
                s << " visibility=" << *c.visibility;
            if (c.id)
                s << " id=" << *c.id;
            if (c.how)
                s << " how=" << c.how;
            if (c.help)
                s << " help=" << quote(*c.help);
        }

        void cmd(std::ostream& s, const Cmd& c, int indent)
        {
            const std::string in(size_t(indent), ' ');
            s << in << "command " << quote(c.name);
            if (c.multi)
                s << " multi";
            if (c.require)
                s << " require=" << *c.require;
            common(s, c);
            for (auto& [id, t] : c.texts)
                s << " text" << int(id) << "=" << quote(t);
            if (c.last_section)
                s << " last_section=" << quote(*c.last_section);
            if (!c.order.empty())
            {
                s << " order=";
                for (auto [k, i] : c.order)
                    s << k << i;
            }
            s << "\n";
            for (auto& a : c.args)
            {
                s << in << "  arg " << quote(a.name);
                if (a.set_count)
                    s << " count=" << a.lo << ".." << a.hi;
                if (a.set_optional)
                    s << (*a.set_optional ? " optional" : " mandatory");
                if (a.has_callback)
                    s << " callback";
                common(s, a);
                s << "\n";
            }
            static const char* OPS[] = {"NONE", "ASSIGN", "APPEND", "CLEAR"};
            static const char* TYPES[] = {"NORMAL", "HELP", "STOP", "EXIT",
                                          "LAST_ARGUMENT", "LAST_OPTION"};
            for (auto& o : c.opts)
            {
                s << in << "  opt " << quote_all(o.flags);
                if (!o.argument.empty())
                    s << " argument=" << quote(o.argument);
                if (!o.constant.empty())
                    s << " constant=" << quote(o.constant);
                if (o.set_op)
                    s << " " << OPS[int(o.op)];
                if (o.type != Type::NORMAL)
                    s << " " << TYPES[int(o.type)];
                if (o.mandatory)
                    s << " mandatory";
                if (!o.initial.empty())
                    s << " initial=" << quote(o.initial);
                if (o.has_callback)
                    s << " callback";
                common(s, o);
                s << "\n";
            }
            for (auto& sc : c.cmds)
                cmd(s, sc, indent + 2);
        }
    }

    std::string describe(const Parser& p)
    {
        std::ostringstream s;
        static const char* STYLES[] = {"STANDARD", "SLASH", "DASH"};
        s << "parser " << STYLES[int(p.style)];
        if (p.abbrev) s << " abbreviations";
        if (p.ci) s << " case_insensitive";
        if (!p.gen_help) s << " no_help_option";
        if (p.version) s << " version=" << quote(*p.version);
        if (p.ignore_args) s << " ignore_undefined_arguments";
        if (p.ignore_opts) s << " ignore_undefined_options";
        if (p.auto_exit) s << " auto_exit";
        if (p.exit_codes)
            s << " exit_codes=" << p.exit_codes->first << "," << p.exit_codes->second;
        if (p.arg_callback) s << " argument_callback";
        if (p.opt_callback) s << " option_callback";
        if (p.line_width != 80) s << " line_width=" << p.line_width;
        if (!p.split_rules.empty()) s << " split_rules=" << quote_all(p.split_rules);
        s << "\n";
        cmd(s, p.cmd, 1);
        return s.str();
    }

    std::string describe(const Node& n, int indent)
    {
        std::ostringstream s;
        const std::string in(size_t(indent), ' ');
        s << in << quote(n.name) << " " << to_string(n.code);
        if (n.stop_flags)
            s << " stop_option=" << quote_all(*n.stop_flags);
        if (!n.unprocessed.empty())
            s << " unprocessed=" << quote_all(n.unprocessed);
        s << "\n";
        for (auto& [k, v] : n.values)
        {
            if (v.empty())
                continue;
            s << in << "  " << quote(k) << " = " << quote_all(v);
            if (auto it = n.sources.find(k); it != n.sources.end())
                s << " from " << quote_all(it->second);
            s << "\n";
        }
        for (auto& sub : n.subs)
            s << describe(sub, indent + 2);
        return s.str();
    }

    std::string describe(const Event& e)
    {
        return std::string(1, e.kind) + " " + e.name + "#" + std::to_string(e.index)
               + " " + quote(e.value);
    }

    std::string describe(const std::vector<Event>& events)
    {
        std::string s;
        for (auto& e : events)
            s += describe(e) + "\n";
        return s;
    }
}
