#include "model.hpp"
#include <algorithm>
#include <deque>
#include <optional>
#include "lookup.hpp"

namespace model
{
    using namespace spec;

    bool is_option(const std::string& token, Style style)
    {
        return token.size() >= 2 && token[0] == (style == Style::SLASH ? '/' : '-');
    }

    namespace
    {
        bool flag_taken(const Cmd& c, const std::string& flag, bool ci)
        {
            for (auto& o : c.opts)
            {
                for (auto& f : o.flags)
                {
                    if (lookup::equal(f, flag, ci))
                        return true;
                }
            }
            return false;
        }

        void finish_cmd(Cmd& c, const Parser& p)
        {
            for (auto& a : c.args)
            {
                if (a.set_optional)
                {
                    if (*a.set_optional)
                        a.lo = 0;
                    else if (a.lo == 0)
                        a.lo = 1;
                }
            }
            for (auto& o : c.opts)
            {
                if (o.op == Op::ASSIGN && o.argument.empty() && o.constant.empty())
                    o.constant = "1";
            }
            bool has_help = false;
            for (auto& o : c.opts)
                has_help = has_help || o.type == Type::HELP;
            if (p.gen_help && !has_help)
            {
                Opt o;
                o.generated = true;
                o.type = Type::HELP;
                o.constant = "1";
                o.help = "Display this help text.";
                auto add = [&](const char* f)
                {
                    if (flag_taken(c, f, p.ci))
                        return false;
                    o.flags.emplace_back(f);
                    return true;
                };
                if (p.style == Style::STANDARD)
                {
                    add("-h");
                    add("--help");
                }
                else if (p.style == Style::SLASH)
                    add("/?");
                else if (!add("-h"))
                    add("-help");
                if (!o.flags.empty())
                    c.opts.push_back(o);
            }
            if (!c.require)
                c.require = !c.cmds.empty();
            for (auto& s : c.cmds)
                finish_cmd(s, p);
        }
    }

    Parser finish(const Parser& p0)
    {
        Parser p = p0;
        if (p.version && !p.version->empty())
        {
            const char* flag = p.style == Style::STANDARD ? "--version"
                               : p.style == Style::SLASH ? "/VERSION" : "-version";
            if (!flag_taken(p.cmd, flag, p.ci))
            {
                Opt o;
                o.generated = true;
                o.flags = {flag};
                o.type = Type::EXIT;
                o.constant = "1";
                o.help = "Display the program version.";
                p.cmd.opts.push_back(o);
            }
        }
        finish_cmd(p.cmd, p);
        return p;
    }

    std::vector<int> value_groups(const Cmd& c)
    {
        // Names as nodes of a graph; repeated relaxation until nothing changes.
        std::vector<Strings> names;
        for (auto& a : c.args)
        {
            names.push_back({a.name});
            if (!a.alias.empty())
                names.back().push_back(a.alias);
        }
        for (auto& o : c.opts)
        {
            if (o.op == Op::NONE)
            {
                names.emplace_back();
                continue;
            }
            names.push_back(o.flags);
            if (!o.alias.empty())
                names.back().push_back(o.alias);
        }
        std::vector<int> group(names.size());
        for (size_t i = 0; i < names.size(); ++i)
            group[i] = names[i].empty() ? -1 : int(i);
        bool changed = true;
        while (changed)
        {
            changed = false;
            for (size_t i = 0; i < names.size(); ++i)
            {
                for (size_t j = 0; j < names.size(); ++j)
                {
                    if (group[i] <= group[j] || group[j] < 0)
                        continue;
                    const bool shared = std::any_of(
                        names[i].begin(), names[i].end(), [&](auto& s)
                        {
                            return std::find(names[j].begin(), names[j].end(), s)
                                   != names[j].end();
                        });
                    if (shared)
                    {
                        group[i] = group[j];
                        changed = true;
                    }
                }
            }
        }
        return group;
    }

    int Parsed::argument_of(int inst, size_t k) const
    {
        const auto& in = insts[size_t(inst)];
        size_t lo = 0;
        for (auto& a : in.cmd->args)
            lo += a.lo;
        size_t surplus = in.positionals > lo ? in.positionals - lo : 0;
        size_t end = 0;
        for (size_t i = 0; i < in.cmd->args.size(); ++i)
        {
            auto& a = in.cmd->args[i];
            const size_t extra = std::min<size_t>(surplus, a.hi - a.lo);
            surplus -= extra;
            end += a.lo + extra;
            if (k < end)
                return int(i);
        }
        return -1;
    }

    Node Parsed::make_node(int inst, size_t log_size, bool children) const
    {
        const auto& in = insts[size_t(inst)];
        const auto& c = *in.cmd;
        const size_t na = c.args.size();
        Node n;
        n.name = c.name;
        n.code = in.code;
        if (in.stop)
            n.stop_flags = in.stop->flags;
        struct List
        {
            Strings values, sources;
            std::vector<int> definitions;
        };
        std::map<int, List> values; // by group
        auto name_of = [&](size_t def)
        {
            return def < na ? c.args[def].name : c.opts[def - na].flags.front();
        };
        auto put = [&](size_t def, const std::string& v, bool append, bool anonymous = false)
        {
            auto& list = values[in.groups[def]];
            if (!append)
                list = {};
            list.values.push_back(v);
            list.sources.push_back(anonymous ? "?" : name_of(def));
            list.definitions.push_back(anonymous ? -1 : int(def));
        };
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            if (!c.opts[i].initial.empty() && c.opts[i].op != Op::NONE)
                put(na + i, c.opts[i].initial, true);
        }
        size_t positional = 0;
        for (size_t i = 0; i < log_size; ++i)
        {
            const auto& l = log[i];
            if (l.inst != inst)
                continue;
            switch (l.kind)
            {
            case '=': put(na + size_t(l.index), l.value, false); break;
            case '+': put(na + size_t(l.index), l.value, true); break;
            case '0': values.erase(in.groups[na + size_t(l.index)]); break;
            case 'p':
            {
                const int a = argument_of(inst, positional++);
                if (a >= 0)
                    put(size_t(a), l.value, true);
                break;
            }
            case 'u': n.unprocessed.push_back(l.value); break;
            case 'A':
            case 'P':
            case 'C':
            {
                // Set by a callback. -1: the latest positional's argument
                const int d = l.index >= 0 ? l.index
                                           : argument_of(inst, positional - 1);
                if (d < 0)
                    break;
                if (l.kind == 'C')
                    values.erase(in.groups[size_t(d)]);
                else
                    put(size_t(d), l.value, l.kind == 'P', l.anonymous);
                break;
            }
            default: break;
            }
        }
        auto publish = [&](const std::string& name, size_t def)
        {
            const auto it = values.find(in.groups[def]);
            if (it != values.end())
            {
                n.values[name] = it->second.values;
                n.sources[name] = it->second.sources;
                n.definitions[name] = it->second.definitions;
            }
            else
            {
                n.values[name];
                n.sources[name];
            }
        };
        for (size_t i = 0; i < na; ++i)
        {
            publish(c.args[i].name, i);
            if (!c.args[i].alias.empty())
                publish(c.args[i].alias, i);
        }
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            if (c.opts[i].op == Op::NONE)
                continue;
            for (auto& f : c.opts[i].flags)
                publish(f, na + i);
            if (!c.opts[i].alias.empty())
                publish(c.opts[i].alias, na + i);
        }
        if (children)
        {
            for (size_t i = 0; i < insts.size(); ++i)
            {
                if (insts[i].parent == inst && insts[i].created <= log_size)
                    n.subs.push_back(make_node(int(i), log_size, true));
            }
        }
        return n;
    }

    Node Parsed::node() const
    {
        return make_node(0, log.size(), true);
    }

    Node Parsed::snapshot(int k) const
    {
        return make_node(0, k < 0 ? 0 : event_log[size_t(k)], true);
    }

    Node Parsed::inst_snapshot(int k) const
    {
        return make_node(event_inst[size_t(k)], event_log[size_t(k)], false);
    }

    Node Parsed::callback_snapshot(int k, bool after) const
    {
        const auto i = size_t(k);
        return make_node(event_inst[i], after ? event_after[i] : event_before[i], false);
    }

    namespace
    {
        struct Machine
        {
            const Parser& p;
            Parsed r;
            std::deque<std::string> rest; // tokens that haven't been started
            std::optional<std::string> cluster; // unread letters of the current token
            std::string token;                  // the current token
            std::vector<int> chain;             // active command instances
            bool only_args = false;
            bool done = false;
            const Act& act;
            int acts = 0;

            Machine(const Parser& parser, const Strings& tokens, const Act& a)
                : p(parser), rest(tokens.begin(), tokens.end()), act(a)
            {
            }

            Parsed::Inst& top() { return r.insts[size_t(chain.back())]; }
            const Cmd& cmd() { return *top().cmd; }

            void unspecified(const std::string& why)
            {
                r.unspecified = true;
                if (r.why.empty())
                    r.why = why;
            }

            void start(const Cmd* c)
            {
                Parsed::Inst in;
                in.cmd = c;
                in.parent = chain.empty() ? -1 : chain.back();
                in.created = r.log.size() + 1;
                in.path = (chain.empty() ? "" : top().path) + c->name + "/";
                in.full_name = chain.empty() ? c->name : top().full_name + " " + c->name;
                in.groups = value_groups(*c);
                const int id = int(r.insts.size());
                if (chain.empty())
                    in.created = 0;
                else
                    r.log.push_back({id, 'c', 0, {}});
                r.insts.push_back(std::move(in));
                chain.push_back(id);
                only_args = false;
                r.commands++;
            }

            void event(char kind, const std::string& name, int index, const std::string& value)
            {
                r.events.push_back({kind, name, index, value});
                r.event_inst.push_back(chain.back());
                r.event_top.push_back(chain.back());
                r.event_log.push_back(r.log.size());
                r.event_before.push_back(r.log.size());
                r.event_after.push_back(r.log.size());
                r.event_path.push_back(top().path);
            }

            void log(char kind, int index, const std::string& value)
            {
                r.log.push_back({chain.back(), kind, index, value});
            }

            void error(const std::string& msg) { error(msg, top().full_name); }

            void error(const std::string& msg, const std::string& full_name)
            {
                r.failed = true;
                r.error = msg;
                r.error_cmd = full_name;
                for (int i : chain)
                    r.insts[size_t(i)].code = Code::FAILURE;
                done = true;
            }

            // True if the result has a value for the option.
            bool has_value(int inst, size_t opt)
            {
                auto n = r.make_node(inst, r.log.size(), false);
                return !n.values[r.insts[size_t(inst)].cmd->opts[opt].flags.front()].empty();
            }

            bool check_mandatory(size_t first)
            {
                for (size_t i = chain.size(); i-- > first;)
                {
                    const auto& in = r.insts[size_t(chain[i])];
                    for (size_t j = 0; j < in.cmd->opts.size(); ++j)
                    {
                        auto& o = in.cmd->opts[j];
                        if (!o.mandatory)
                            continue;
                        if (o.op == Op::NONE)
                        {
                            unspecified("mandatory NONE option");
                            return false;
                        }
                        if (has_value(chain[i], j))
                            continue;
                        std::string flags;
                        for (auto& f : o.flags)
                            flags += (flags.empty() ? "" : ", ") + f;
                        error("Mandatory option is missing: " + flags, in.full_name);
                        return false;
                    }
                }
                return true;
            }

            std::pair<size_t, size_t> limits()
            {
                size_t lo = 0, hi = 0;
                for (auto& a : cmd().args)
                {
                    lo += a.lo;
                    hi += a.hi;
                }
                return {lo, hi};
            }

            bool check_all()
            {
                if (!check_mandatory(0))
                    return false;
                bool has_sub = false;
                for (auto& in : r.insts)
                    has_sub = has_sub || in.parent == chain.back();
                if (*cmd().require && !has_sub)
                {
                    error("No command was given.");
                    return false;
                }
                const auto [lo, hi] = limits();
                if (top().positionals < lo)
                {
                    error(std::string("Too few arguments. Expected ")
                          + (lo == hi ? "" : "at least ") + std::to_string(lo)
                          + ", received " + std::to_string(top().positionals) + ".");
                    return false;
                }
                for (int i : chain)
                    r.insts[size_t(i)].code = Code::SUCCESS;
                return true;
            }

            // Position in chain of the innermost ancestor of the current
            // command that allows multiple sub-commands.
            std::optional<size_t> multi_ancestor()
            {
                for (size_t i = chain.size() - 1; i-- > 0;)
                {
                    if (r.insts[size_t(chain[i])].cmd->multi)
                        return i;
                }
                return {};
            }

            void drain()
            {
                if (cluster && !cluster->empty())
                    log('u', 0, "-" + *cluster);
                cluster.reset();
                for (auto& t : rest)
                    log('u', 0, t);
                rest.clear();
            }

            /// Index of the definition with the given name.
            int find_name(const std::string& name)
            {
                const auto& c = cmd();
                for (size_t i = 0; i < c.args.size(); ++i)
                {
                    if (c.args[i].name == name || (!name.empty() && c.args[i].alias == name))
                        return int(i);
                }
                for (size_t i = 0; i < c.opts.size(); ++i)
                {
                    if (c.opts[i].op == Op::NONE)
                        continue;
                    auto& f = c.opts[i].flags;
                    if (std::find(f.begin(), f.end(), name) != f.end()
                        || (!name.empty() && c.opts[i].alias == name))
                        return int(c.args.size() + i);
                }
                return -1;
            }

            void run_action()
            {
                if (!act)
                    return;
                const auto& e = r.events.back();
                auto a = act(e, acts++, cmd());
                for (auto& op : a.ops)
                {
                    int def;
                    if (!op.name.empty())
                        def = find_name(op.name);
                    else
                        def = e.kind == 'a' ? -1 : int(cmd().args.size()) + e.index;
                    const char kind = op.op == '=' ? 'A' : op.op == '+' ? 'P' : 'C';
                    r.log.push_back({chain.back(), kind, def, op.value, !op.name.empty()});
                }
                r.event_after.back() = r.log.size();
                auto& add = a.insert;
                if (add.empty())
                    return;
                if (cluster && !cluster->empty())
                {
                    if (cluster->front() == '-')
                        unspecified("insertion before a '-' in a cluster");
                    rest.push_front("-" + *cluster);
                    cluster.reset();
                }
                rest.insert(rest.begin(), add.begin(), add.end());
            }

            void option(const std::string& flag, std::optional<std::string> attached)
            {
                const int i = lookup::find_option(cmd(), flag, p.abbrev, p.ci);
                if (i < 0)
                {
                    r.unknown_tokens++;
                    const bool in_cluster = cluster.has_value();
                    if (!p.ignore_opts)
                    {
                        error("Unknown option: " + token);
                        return;
                    }
                    if (in_cluster)
                    {
                        unspecified("undefined option in a cluster");
                        error("Unknown option: " + token);
                        return;
                    }
                    log('u', 0, token);
                    event('u', "", -1, token);
                    return;
                }
                const auto& o = cmd().opts[size_t(i)];
                if (lookup::find_flag(cmd(), flag, false, p.ci) < 0
                    && !(flag.size() > 2 && flag.back() == '='
                         && lookup::find_flag(cmd(), flag.substr(0, flag.size() - 1), false, p.ci) >= 0))
                    r.abbreviated++;
                if (o.op == Op::CLEAR && !o.argument.empty())
                    unspecified("CLEAR option with an argument");
                const bool takes_value = !o.argument.empty();
                std::string value;
                if (takes_value)
                {
                    if (cluster && !cluster->empty())
                    {
                        value = *cluster;
                        cluster.reset();
                        r.attached++;
                    }
                    else if (attached)
                    {
                        value = *attached;
                        r.equals++;
                    }
                    else if (!rest.empty())
                    {
                        value = rest.front();
                        token = value;
                        rest.pop_front();
                        cluster.reset();
                    }
                    else
                    {
                        error(flag + ": no value given.");
                        return;
                    }
                }
                switch (o.op)
                {
                case Op::NONE: break;
                case Op::ASSIGN: log('=', i, takes_value ? value : o.constant); break;
                case Op::APPEND: log('+', i, takes_value ? value : o.constant); break;
                case Op::CLEAR: log('0', i, {}); break;
                }
                r.options++;
                event('o', o.flags.front(), i, value);
                run_action();
                const bool more = cluster && !cluster->empty();
                switch (o.type)
                {
                case Type::NORMAL:
                    break;
                case Type::HELP:
                    r.help_written = true;
                    r.help_cmd = top().full_name;
                    [[fallthrough]];
                case Type::STOP:
                case Type::EXIT:
                    if (o.generated && o.type == Type::EXIT)
                        r.version_written = true;
                    r.used_stop = true;
                    for (int k : chain)
                    {
                        r.insts[size_t(k)].code = Code::STOP;
                        r.insts[size_t(k)].stop = &o;
                    }
                    drain();
                    // The unprocessed arguments are there when the event is
                    // reported.
                    r.event_log.back() = r.log.size();
                    done = true;
                    break;
                case Type::LAST_ARGUMENT:
                    r.used_last_argument = true;
                    if (!check_all())
                    {
                        r.last_argument_failed = true;
                        done = true;
                        return;
                    }
                    if (auto m = multi_ancestor())
                    {
                        if (more)
                            unspecified("last-argument option inside a cluster");
                        chain.resize(*m + 1);
                        r.event_top.back() = chain.back();
                        only_args = true;
                    }
                    else
                    {
                        drain();
                        r.event_log.back() = r.log.size();
                        done = true;
                    }
                    break;
                case Type::LAST_OPTION:
                    r.used_last_option = true;
                    if (more)
                        unspecified("last-option option inside a cluster");
                    only_args = true;
                    break;
                }
            }

            void argument()
            {
                if (!cmd().cmds.empty())
                {
                    auto* c = lookup::find_command(cmd(), token, p.ci);
                    if (!c)
                    {
                        error("Unknown command: " + token);
                        return;
                    }
                    start(c);
                    event('c', c->name, 0, token);
                    return;
                }
                const auto [lo, hi] = limits();
                if (top().positionals >= lo)
                {
                    if (auto m = multi_ancestor())
                    {
                        auto* c = lookup::find_command(
                            *r.insts[size_t(chain[*m])].cmd, token, p.ci);
                        if (c)
                        {
                            if (!check_mandatory(*m + 1))
                                return;
                            for (size_t i = *m + 1; i < chain.size(); ++i)
                                r.insts[size_t(chain[i])].code = Code::SUCCESS;
                            chain.resize(*m + 1);
                            r.siblings++;
                            start(c);
                            event('c', c->name, 0, token);
                            return;
                        }
                    }
                }
                if (top().positionals < hi)
                {
                    top().positionals++;
                    r.positionals++;
                    log('p', 0, token);
                    event('a', "", -1, token);
                    run_action();
                    return;
                }
                r.unknown_tokens++;
                if (p.ignore_args)
                {
                    log('u', 0, token);
                    event('u', "", -1, token);
                    return;
                }
                error("Too many arguments, starting from \"" + token + "\".");
            }

            void run()
            {
                start(&p.cmd);
                while (!done)
                {
                    if (cluster)
                    {
                        if (!cluster->empty())
                        {
                            if (only_args)
                            {
                                unspecified("rest of a cluster after last-option");
                                return;
                            }
                            const std::string flag{'-', (*cluster)[0]};
                            cluster->erase(0, 1);
                            option(flag, {});
                            continue;
                        }
                        cluster.reset();
                    }
                    if (rest.empty())
                    {
                        check_all();
                        break;
                    }
                    token = rest.front();
                    rest.pop_front();
                    if (only_args || !is_option(token, p.style))
                    {
                        argument();
                        continue;
                    }
                    if (token.size() == 2)
                    {
                        option(token, {});
                        continue;
                    }
                    if (p.style == Style::STANDARD && token[1] != '-')
                    {
                        r.clusters++;
                        cluster = token.substr(2);
                        option(token.substr(0, 2), {});
                        continue;
                    }
                    const auto eq = token.find('=');
                    if (eq == std::string::npos)
                        option(token, {});
                    else
                        option(token.substr(0, eq + 1), token.substr(eq + 1));
                }
                r.consumed = rest.empty() && (!cluster || cluster->empty());
                for (auto& in : r.insts)
                {
                    size_t lo = 0, hi = 0;
                    for (auto& a : in.cmd->args)
                    {
                        lo += a.lo;
                        hi += a.hi;
                    }
                    if (in.cmd->args.size() > 1 && in.positionals > lo && in.positionals < hi)
                        r.surplus = true;
                }
                // Positional events get their argument when everything is known.
                std::vector<size_t> seen(r.insts.size());
                for (size_t i = 0; i < r.events.size(); ++i)
                {
                    auto& e = r.events[i];
                    if (e.kind != 'a')
                        continue;
                    const int inst = r.event_inst[i];
                    e.index = r.argument_of(inst, seen[size_t(inst)]++);
                    e.name = e.index < 0
                                 ? "?" : r.insts[size_t(inst)].cmd->args[size_t(e.index)].name;
                }
            }
        };
    }

    Parsed parse(const Parser& p, const Strings& tokens, const Act& act)
    {
        auto copy = std::make_shared<Parser>(p);
        Machine m(*copy, tokens, act);
        m.run();
        m.r.parser = copy;
        return std::move(m.r);
    }
}
