// Callbacks see each option and argument once, in order, with the values
// processed so far, and can set values and insert arguments.
#include <algorithm>
#include <memory>
#include "../check.hpp"
#include "../gen.hpp"
#include "../lookup.hpp"

namespace
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;
    using Values = std::map<std::string, Strings>;

    struct Call
    {
        bool own;         // the definition's own callback
        char kind;        // 'o' or 'a'
        std::string name; // of the definition
        std::string value;
        std::string path; // own callbacks only
        Values values;    // through the builder
        Values sources;
        bool read = false; // values and sources are known
        std::string text() const
        {
            return std::string(own ? "own callback of " : "parser-wide callback for ") + path
                   + name + " value " + quote(value);
        }
    };

    std::vector<std::string> names_of(const Cmd& c)
    {
        std::vector<std::string> r;
        for (auto& a : c.args)
        {
            r.push_back(a.name);
            if (!a.alias.empty())
                r.push_back(a.alias);
        }
        for (auto& o : c.opts)
        {
            if (o.op == Op::NONE)
                continue;
            r.insert(r.end(), o.flags.begin(), o.flags.end());
            if (!o.alias.empty())
                r.push_back(o.alias);
        }
        return r;
    }

    const Cmd* find_path(const Cmd& top, const std::string& path)
    {
        const Cmd* c = &top;
        size_t pos = path.find('/') + 1;
        while (pos < path.size())
        {
            const auto end = path.find('/', pos);
            c = lookup::find_command(*c, path.substr(pos, end - pos), false);
            if (!c)
                return nullptr;
            pos = end + 1;
        }
        return c;
    }

    /// What the callbacks do at each option or argument.
    using Plan = std::vector<model::Action>;

    /// The library's calls. The definitions' own callbacks do nothing but
    /// log unless 'own_acts' is set, when they do what there is to do.
    struct Recorder
    {
        const Parser& finished;
        const model::Parsed& m; // says which command an event belongs to
        const Plan& plan;
        bool own_acts;
        std::vector<Call> calls;
        size_t k = 0;  // events seen
        bool acted = false;
        bool reliable; // every option and argument is seen


        template <typename A>
        Call make_call(bool own, char kind, const std::string& path, A& x)
        {
            Call c{own, kind, build::view_name(&x.view), std::string(x.value), path, {}, {}, false};
            if (auto* cmd = own ? find_path(finished.cmd, path) : reliable ? current() : nullptr)
                read(c, x, *cmd);
            return c;
        }

        const Cmd* current()
        {
            size_t n = 0;
            for (size_t i = 0; i < m.events.size(); ++i)
            {
                const char kind = m.events[i].kind;
                if ((kind == 'o' || kind == 'a') && n++ == k)
                    return m.insts[size_t(m.event_inst[i])].cmd;
            }
            return nullptr;
        }

        template <typename A>
        void read(Call& c, A& x, const Cmd& cmd)
        {
            c.read = true;
            for (auto& name : names_of(cmd))
            {
                auto& v = c.values[name];
                auto& src = c.sources[name];
                v.clear();
                src.clear();
                for (const auto& value : x.builder.values(name))
                {
                    v.push_back(value.as_string("<none>"));
                    src.push_back(build::view_name(value.argument().get()));
                }
                std::string last;
                try
                {
                    last = x.builder.value(name).as_string("<none>");
                }
                catch (const argos::ArgosException&)
                {
                    last = "<many>";
                }
                if (x.builder.has(name) == v.empty()
                    || last != (v.empty() ? "<none>" : v.size() > 1 ? "<many>" : v.back()))
                    fail("the builder's has(), value() and values() disagree on " + quote(name));
            }
            if (x.builder.program_name() != finished.cmd.name)
                fail("the builder has the wrong program name");
        }

        template <typename A>
        void act(A& x)
        {
            if (k >= plan.size())
                return;
            auto& a = plan[k];
            const std::string value(x.value);
            for (auto& op : a.ops)
            {
                if (op.name.empty())
                {
                    if (op.op == '=')
                        x.builder.assign(x.view, op.value);
                    else if (op.op == '+')
                        x.builder.append(x.view, op.value);
                    else
                        x.builder.clear(x.view);
                }
                else
                {
                    if (op.op == '=')
                        x.builder.assign(op.name, op.value);
                    else if (op.op == '+')
                        x.builder.append(op.name, op.value);
                    else
                        x.builder.clear(op.name);
                }
            }
            if (value != x.value)
                fail("the callback's value changed from " + quote(value) + " to " + quote(x.value));
            x.new_arguments = a.insert;
            acted = true;
        }

        template <typename A>
        void own(char kind, const std::string& path, A& x)
        {
            calls.push_back(make_call(true, kind, path, x));
            acted = false;
            if (own_acts)
                act(x);
        }

        template <typename A>
        void any(char kind, A& x)
        {
            calls.push_back(make_call(false, kind, {}, x));
            if (!acted)
                act(x);
            acted = false;
            ++k;
        }
    };

    /// Some argument's share depends on the number of arguments.
    bool counts_ahead(const Cmd& c)
    {
        for (size_t i = 0; i + 1 < c.args.size(); ++i)
        {
            if (c.args[i].lo != c.args[i].hi)
                return true;
        }
        return false;
    }

    model::Act make_act(const Plan& plan)
    {
        return [&plan](const Event&, int k, const Cmd&) -> model::Action
        {
            return size_t(k) < plan.size() ? plan[size_t(k)] : model::Action{};
        };
    }

    /// The arguments that have been processed when something is inserted
    /// keep the argument they were given to (see known_findings.jsonl).
    bool is_stable(const Parser& f, const Strings& tokens, const Plan& plan)
    {
        Plan p;
        auto before = model::parse(f, tokens, make_act(p));
        for (auto& a : plan)
        {
            p.push_back(a);
            if (a.insert.empty())
                continue;
            auto after = model::parse(f, tokens, make_act(p));
            if (after.unspecified || before.unspecified)
                return false;
            // Only the events up to this one are certain to be the same
            size_t n = 0;
            std::vector<size_t> ordinal(after.insts.size());
            for (size_t i = 0; i < after.events.size() && n < p.size(); ++i)
            {
                const auto& e = after.events[i];
                n += e.kind == 'o' || e.kind == 'a';
                if (e.kind != 'a')
                    continue;
                const auto inst = after.event_inst[i];
                const auto o = ordinal[size_t(inst)]++;
                if ((after.failed || before.failed) && counts_ahead(*after.insts[size_t(inst)].cmd))
                    return false;
                if (size_t(inst) >= before.insts.size()
                    || before.argument_of(inst, o) != after.argument_of(inst, o))
                    return false;
            }
            before = std::move(after);
        }
        return true;
    }

    model::Parsed check_calls(const Parser& p, const Parser& f, const Strings& tokens,
                              const Plan& plan, bool own_acts, pbt::Case& c)
    {
        const auto m = model::parse(f, tokens, make_act(plan));
        if (m.unspecified)
            pbt::discard("unspecified: " + m.why);
        auto rec = std::make_shared<Recorder>(Recorder{f, m, plan, own_acts, {}, 0, false,
                                                       p.opt_callback && p.arg_callback});
        auto hooks = std::make_shared<build::Hooks>();
        hooks->option = [rec](auto& path, int, auto& x) { rec->own('o', path, x); };
        hooks->argument = [rec](auto& path, int, auto& x) { rec->own('a', path, x); };
        hooks->any_option = [rec](auto& x) { rec->any('o', x); };
        hooks->any_argument = [rec](auto& x) { rec->any('a', x); };
        const auto r = check::run(p, f, tokens, hooks);
        if (r.exception)
            fail("parsing threw an exception: " + *r.exception);
        // Positional arguments can be attributed differently if parsing
        // fails, because the number of arguments isn't well-defined.
        std::vector<Call> expected;
        for (size_t i = 0; i < m.events.size(); ++i)
        {
            auto& e = m.events[i];
            if (e.kind != 'o' && e.kind != 'a')
                continue;
            const auto* cmd = m.insts[size_t(m.event_inst[i])].cmd;
            Call call{true, e.kind, e.name, e.value, m.event_path[i], {}, {}, true};
            bool own;
            if (e.kind == 'o')
            {
                own = cmd->opts[size_t(e.index)].has_callback;
            }
            else
            {
                own = e.index >= 0 && cmd->args[size_t(e.index)].has_callback;
                call.value = m.events[i].value;
            }
            const bool acts = own && own_acts;
            auto before = m.callback_snapshot(int(i), false);
            auto after = m.callback_snapshot(int(i), acts);
            if (own)
            {
                call.values = before.values;
                call.sources = before.sources;
                expected.push_back(call);
            }
            if (e.kind == 'o' ? p.opt_callback : p.arg_callback)
            {
                call.own = false;
                call.path.clear();
                call.values = after.values;
                call.sources = after.sources;
                expected.push_back(call);
            }
        }
        // In fuzzy cases own callbacks of arguments may be others than
        // expected: compare the parser-wide ones only.
        const bool any_fuzzy = m.failed && std::any_of(m.insts.begin(), m.insts.end(), [](auto& in)
                                                       { return counts_ahead(*in.cmd); });
        std::vector<Call> actual = rec->calls;
        if (any_fuzzy)
        {
            auto drop = [](auto& v)
            {
                v.erase(std::remove_if(v.begin(), v.end(), [](auto& x)
                                       { return x.own && x.kind == 'a'; }), v.end());
            };
            drop(expected);
            drop(actual);
            c.label("arguments not attributed");
        }
        for (size_t i = 0; i < std::max(expected.size(), actual.size()); ++i)
        {
            if (i >= actual.size())
                fail("missing call number " + std::to_string(i) + ": " + expected[i].text());
            if (i >= expected.size())
                fail("unexpected call number " + std::to_string(i) + ": " + actual[i].text());
            auto& e = expected[i];
            auto& a = actual[i];
            const auto where = "call number " + std::to_string(i) + ": expected " + e.text()
                               + ", got " + a.text();
            if (e.own != a.own || e.kind != a.kind || e.value != a.value || e.path != a.path)
                fail(where);
            if (any_fuzzy && e.kind == 'a')
                continue;
            if (e.name != a.name)
                fail(where);
            if (any_fuzzy || !a.read)
                continue;
            for (auto& [name, v] : e.values)
            {
                auto it = a.values.find(name);
                if (it == a.values.end() || it->second != v)
                    fail("call number " + std::to_string(i) + ", " + e.text() + ": the builder's "
                         + quote(name) + " should be " + pbt::quote_all(v) + ", but is "
                         + (it == a.values.end() ? "unknown" : pbt::quote_all(it->second)));
                if (a.sources[name] != e.sources[name])
                    fail("call number " + std::to_string(i) + ", " + e.text() + ": the sources of "
                         + quote(name) + " should be " + pbt::quote_all(e.sources[name]) + ", but are "
                         + pbt::quote_all(a.sources[name]));
            }
        }
        if (any_fuzzy)
        {
            auto d = check::diff_codes(m.node(), r.node);
            if (!d.empty())
                fail(d);
        }
        else
        {
            check::compare(m, r, tokens);
        }
        c.label_if(!expected.empty(), "callbacks were called");
        return m;
    }

    Strings some_tokens(pbt::Src& s, const Parser& f, const gen::Cfg& cfg)
    {
        // Options and arguments of a random command
        const Cmd* cmd = &f.cmd;
        while (!cmd->cmds.empty() && s.chance(50))
            cmd = &cmd->cmds[s.draw(cmd->cmds.size())];
        Parser q = f;
        q.cmd = *cmd;
        auto t = gen::tokens(s, q, cfg);
        if (t.size() > 5)
            t.resize(5);
        return t;
    }

    std::string show(const Plan& plan)
    {
        std::string r;
        for (size_t k = 0; k < plan.size(); ++k)
        {
            for (auto& op : plan[k].ops)
                r += "at " + std::to_string(k) + ": " + op.op
                     + (op.name.empty() ? " itself " : " " + quote(op.name) + " ") + quote(op.value) + "\n";
            if (!plan[k].insert.empty())
                r += "at " + std::to_string(k) + ": insert " + pbt::quote_all(plan[k].insert) + "\n";
        }
        return r;
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.callbacks = 55;
        cfg.misuse = 6;
        cfg.junk = 3;
        cfg.mutate = 3;
        cfg.special = 12;
        cfg.none = 8;
        auto p = gen::parser(s, cfg);
        const auto mode = s.draw(4);
        if (mode > 0)
            p.opt_callback = p.arg_callback = true;
        const auto f = model::finish(p);
        if (mode == 0)
        {
            const auto tokens = gen::tokens(s, f, cfg);
            check::describe(c, p, tokens);
            const auto m = check_calls(p, f, tokens, {}, false, c);
            check::label(c, m);
            c.nontrivial = m.options + m.positionals > 0;
            return;
        }
        if (mode <= 2)
        {
            // Values are set, and arguments inserted in random places
            auto tokens = gen::tokens(s, f, cfg);
            Plan plan;
            std::vector<std::string> names;
            std::function<void(const Cmd&)> collect = [&](const Cmd& cmd)
            {
                auto n = names_of(cmd);
                names.insert(names.end(), n.begin(), n.end());
                for (auto& sub : cmd.cmds)
                    collect(sub);
            };
            collect(f.cmd);
            const bool insert = s.chance(60);
            const bool set = !insert || s.chance(40);
            for (int n = s.count(8, 80); n > 0; --n)
            {
                plan.emplace_back();
                if (insert && s.chance(30))
                    plan.back().insert = some_tokens(s, f, cfg);
                if (set && !names.empty())
                {
                    for (int j = s.count(3, 40); j > 0; --j)
                        plan.back().ops.push_back(
                            {s.pick(std::vector<char>{'=', '+', '0'}),
                             s.chance(40) ? std::string() : s.pick(names),
                             s.pick(Strings{"set", "", "x y", "9"})});
                }
            }
            // Only names known by the command, no values of NONE options
            int sanitized = 0;
            for (;;)
            {
                bool again = false;
                (void)model::parse(f, tokens, [&](const Event& e, int k, const Cmd& cmd)
                {
                    if (size_t(k) >= plan.size())
                        return model::Action{};
                    auto& ops = plan[size_t(k)].ops;
                    const auto known = names_of(cmd);
                    auto bad = [&](auto& op)
                    {
                        if (op.name.empty())
                            return e.kind == 'o' && cmd.opts[size_t(e.index)].op == Op::NONE;
                        return std::find(known.begin(), known.end(), op.name) == known.end();
                    };
                    const auto n = ops.size();
                    ops.erase(std::remove_if(ops.begin(), ops.end(), bad), ops.end());
                    again = again || n != ops.size();
                    return plan[size_t(k)];
                });
                if (!again || ++sanitized > 20)
                    break;
            }
            check::describe(c, p, tokens);
            c.desc << show(plan);
            if (!is_stable(f, tokens, plan))
                pbt::discard("insertion changes the distribution of processed arguments");
            const auto m = check_calls(p, f, tokens, plan, s.chance(50), c);
            check::label(c, m);
            size_t done = size_t(m.options + m.positionals);
            bool inserted = false, was_set = false;
            for (size_t k = 0; k < std::min(done, plan.size()); ++k)
            {
                inserted = inserted || !plan[k].insert.empty();
                was_set = was_set || !plan[k].ops.empty();
            }
            c.label_if(inserted, "arguments inserted");
            c.label_if(was_set, "values set");
            c.nontrivial = inserted || was_set;
            return;
        }
        // The same as if the tokens had been written on the command line
        const auto units = gen::units(s, f, cfg);
        std::vector<size_t> candidates;
        for (size_t i = 0; i < units.size(); ++i)
        {
            if (units[i].kind == 'o' || units[i].kind == 'a')
                candidates.push_back(i);
        }
        if (candidates.empty())
            pbt::discard("no place for an insertion");
        const auto at = s.pick(candidates);
        size_t pos = 0;
        const auto tokens = gen::spell(s, f, units, nullptr, at, &pos);
        const Strings pre(tokens.begin(), tokens.begin() + long(pos));
        const auto extra = some_tokens(s, f, cfg);
        if (extra.empty())
            pbt::discard("nothing to insert");
        Strings expanded = pre;
        expanded.insert(expanded.end(), extra.begin(), extra.end());
        expanded.insert(expanded.end(), tokens.begin() + long(pos), tokens.end());
        // The number of the event that is to insert them
        const auto head = model::parse(f, pre);
        size_t k = 0;
        for (auto& e : head.events)
            k += e.kind == 'o' || e.kind == 'a';
        if (k == 0 || head.unspecified || !head.consumed
            || (head.events.back().kind != 'o' && head.events.back().kind != 'a'))
            pbt::discard("no place for an insertion");
        if (head.used_stop || head.used_last_argument)
            pbt::discard("parsing has ended");
        Plan plan(k);
        plan.back().insert = extra;
        check::describe(c, p, tokens);
        c.desc << show(plan) << "same as: " << pbt::quote_all(expanded) << "\n";
        const auto whole = model::parse(f, expanded);
        const auto inserted = model::parse(f, tokens, make_act(plan));
        if (whole.unspecified || inserted.unspecified)
            pbt::discard("unspecified");
        if (head.events.empty() || whole.events.size() < head.events.size())
            pbt::discard("parsing has ended");
        if (head.unknown_tokens
            || (head.failed && !head.error.starts_with("Too few")
                && !head.error.starts_with("Mandatory") && !head.error.starts_with("No command")))
            pbt::discard("the tokens before the insertion aren't valid");
        if (!is_stable(f, tokens, plan))
            pbt::discard("insertion changes the distribution of processed arguments");
        const auto a = check::run(p, f, expanded);
        const auto m = check_calls(p, f, tokens, plan, s.chance(50), c);
        auto hooks = std::make_shared<build::Hooks>();
        auto count = std::make_shared<size_t>(0);
        hooks->any_option = [=](auto& x)
        {
            if (++*count == k)
                x.new_arguments = extra;
        };
        hooks->any_argument = [=](auto& x)
        {
            if (++*count == k)
                x.new_arguments = extra;
        };
        const auto b = check::run(p, f, tokens, hooks);
        c.extra_evaluations = 2;
        const auto d = m.failed || whole.failed ? check::diff_codes(a.node, b.node)
                                                : check::diff(a.node, b.node);
        if (!d.empty())
            fail("not the same as " + pbt::quote_all(expanded) + ": " + d);
        check::label(c, m);
        c.label("compared with the expanded command line");
        c.nontrivial = true;
    }

    void redistribution()
    {
        std::ostringstream out;
        argos::ArgumentParser parser("prog", false);
        parser.auto_exit(false).stream(&out);
        bool done = false;
        parser.add(argos::Argument("A").optional());
        parser.add(argos::Argument("B"));
        parser.argument_callback([&done](auto& x)
        {
            if (!done)
                x.new_arguments = {"y"};
            done = true;
        });
        const auto args = parser.parse(std::vector<std::string_view>{"x"});
        if (args.result_code() != argos::ParserResultCode::SUCCESS
            || args.values("A").as_strings() != Strings{"x"}
            || args.values("B").as_strings() != Strings{"y"})
            fail("A = " + pbt::quote_all(args.values("A").raw_values()) + ", B = "
                 + pbt::quote_all(args.values("B").raw_values()) + " instead of A = [x], B = [y]");
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C13",
        "Random declarations with own and parser-wide callbacks: the complete log of calls (view, "
        "value and all values seen through the builder) is compared with the reference model, with "
        "callbacks that do nothing, that assign, append and clear values by name or view, and that "
        "insert arguments; insertions are also compared with a parse of the expanded command line. "
        "Non-trivial: something was processed, set or inserted.",
        500000, 4000000, run,
        {{"C13-insert-redistribution", true,
          "Arguments A (0-1) and B (1), command line \"x\" where x's callback inserts \"y\": B gets "
          "both instead of A = x, B = y.", redistribution}}};
    return p;
}
