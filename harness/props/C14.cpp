// Iterating over a command line agrees with parsing it at once.
#include <algorithm>
#include "../check.hpp"
#include "../gen.hpp"
#include "../lookup.hpp"

namespace
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;

    bool counts_ahead(const Cmd& c)
    {
        for (size_t i = 0; i + 1 < c.args.size(); ++i)
        {
            if (c.args[i].lo != c.args[i].hi)
                return true;
        }
        return false;
    }

    struct Log
    {
        Strings calls;
        size_t events = 0;
    };

    build::HooksPtr make_hooks(const std::shared_ptr<Log>& log, size_t insert_at, const Strings& tokens)
    {
        auto hooks = std::make_shared<build::Hooks>();
        auto add = [log](const std::string& kind, const std::string& path, auto& x)
        {
            log->calls.push_back(kind + " " + path + " " + build::view_name(&x.view) + " "
                                 + quote(x.value));
        };
        auto insert = [=](auto& x)
        {
            if (++log->events == insert_at)
                x.new_arguments = tokens;
        };
        hooks->option = [=](auto& path, int i, auto& x) { add("option " + std::to_string(i), path, x); };
        hooks->argument = [=](auto& path, int i, auto& x) { add("argument " + std::to_string(i), path, x); };
        hooks->any_option = [=](auto& x) { add("any option", "", x); insert(x); };
        hooks->any_argument = [=](auto& x) { add("any argument", "", x); insert(x); };
        return hooks;
    }

    struct Step
    {
        Event event;
        Node current; // parsed_arguments() after the step
        Node top;     // top-level result after the step
    };

    struct Iteration
    {
        std::vector<Step> steps;
        Node final_top;
        std::string output;
        bool failed = false;
        int moves = 0;
    };


    template <typename F>
    bool throws(F f)
    {
        try
        {
            f();
            return false;
        }
        catch (const argos::ArgosException&)
        {
            return true;
        }
    }

    Iteration iterate(pbt::Src& s, const Parser& p, const Parser& f, const Strings& tokens,
                      const build::HooksPtr& hooks, const model::Parsed* m, bool observe_steps)
    {
        Iteration r;
        std::ostringstream out;
        auto parser = build::make_parser(p, &out, hooks);
        const auto& const_parser = parser;
        std::vector<char*> argv{const_cast<char*>("prog")};
        for (auto& t : tokens)
            argv.push_back(const_cast<char*>(t.c_str()));
        const bool nul = std::any_of(tokens.begin(), tokens.end(), [](auto& t)
                                     { return t.find('\0') != std::string::npos; });
        const auto how = s.draw(nul ? 2 : 4);
        auto it = how == 0   ? parser.make_iterator(build::views(tokens))
                  : how == 1 ? const_parser.make_iterator(build::views(tokens))
                  : how == 2 ? parser.make_iterator(int(argv.size()), argv.data())
                             : const_parser.make_iterator(int(argv.size()), argv.data());
        const auto top = it.parsed_arguments();
        std::vector<const Cmd*> chain{&f.cmd};
        bool error = false;
        const size_t limit = tokens.size() * 8 + 100;
        for (;;)
        {
            if (r.steps.size() > limit)
                fail("iteration doesn't end");
            if (s.chance(4))
            {
                // Moving the iterator is of no consequence
                auto other = std::move(it);
                std::unique_ptr<argos::IArgumentView> a;
                std::string_view v;
                if (!throws([&] { it.next(a, v); }) || !throws([&] { (void)it.parsed_arguments(); }))
                    fail("a moved-from iterator can be used");
                it = std::move(other);
                if (!throws([&] { other.next(a, v); }))
                    fail("a moved-from iterator can be used");
                r.moves++;
            }
            std::unique_ptr<argos::IArgumentView> arg;
            std::string_view value = "?";
            if (s.chance(30))
                arg = std::make_unique<argos::CommandView>(top.command());
            if (!it.next(arg, value))
            {
                if (arg || !value.empty())
                    fail("next() returned false, but also a view or a value");
                break;
            }
            Step step;
            step.event.value = std::string(value);
            step.event.index = -1;
            if (!arg)
                step.event.kind = 'u';
            else if (dynamic_cast<argos::OptionView*>(arg.get()))
                step.event.kind = 'o';
            else if (dynamic_cast<argos::ArgumentView*>(arg.get()))
                step.event.kind = 'a';
            else if (dynamic_cast<argos::CommandView*>(arg.get()))
                step.event.kind = 'c';
            if (arg)
                step.event.name = build::view_name(arg.get());
            if (observe_steps)
            {
                const auto i = r.steps.size();
                const auto current = it.parsed_arguments();
                if (m && i < m->events.size())
                {
                    const auto* cmd = m->insts[size_t(m->event_top[i])].cmd;
                    if (cmd->name == current.name())
                        step.current = build::observe(current, *cmd, f.ci);
                }
                step.top = build::observe(top, f.cmd, f.ci);
            }
            r.steps.push_back(std::move(step));
        }
        r.final_top = build::observe(top, f.cmd, f.ci);
        r.failed = r.final_top.code == Code::FAILURE;
        error = r.failed;
        r.output = out.str();
        // Further calls
        for (int i = s.range(1, 3); i > 0; --i)
        {
            std::unique_ptr<argos::IArgumentView> arg;
            std::string_view value = "?";
            bool thrown = false;
            try
            {
                if (it.next(arg, value))
                    fail("next() returned true after the end");
            }
            catch (const argos::ArgosException&)
            {
                thrown = true;
            }
            if (thrown != error)
                fail(error ? "next() can be called after an error" : "next() throws after the end");
        }
        if (out.str() != r.output)
            fail("calling next() after the end wrote " + quote(out.str().substr(r.output.size())));
        if (const auto d = check::diff(r.final_top, build::observe(top, f.cmd, f.ci)); !d.empty())
            fail("calling next() after the end changed the result: " + d);
        return r;
    }

    Node without_codes(Node n)
    {
        n.code = Code::NONE;
        n.stop_flags.reset();
        for (auto& sub : n.subs)
            sub = without_codes(sub);
        return n;
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.callbacks = s.chance(40) ? 40 : 0;
        cfg.ignore_args = cfg.ignore_opts = 20;
        cfg.max_depth = 3;
        cfg.sub = 40;
        auto p = gen::parser(s, cfg);
        const auto f = model::finish(p);
        const auto tokens = gen::tokens(s, f, cfg);
        check::describe(c, p, tokens);
        Strings insert;
        size_t insert_at = 0;
        if (cfg.callbacks && s.chance(50))
        {
            p.opt_callback = p.arg_callback = true;
            insert = gen::tokens(s, f, cfg);
            insert_at = 1 + s.draw(6);
            c.desc << "callback number " << insert_at << " inserts " << pbt::quote_all(insert) << "\n";
        }
        const auto m = model::parse(f, tokens);
        if (m.unspecified)
            pbt::discard("unspecified: " + m.why);
        const bool fuzzy = m.failed && std::any_of(m.insts.begin(), m.insts.end(), [](auto& in)
                                                   { return counts_ahead(*in.cmd); });
        // With insertions the model isn't used, iteration must still agree
        // with parsing.
        const bool use_model = insert_at == 0;
        auto log1 = std::make_shared<Log>(), log2 = std::make_shared<Log>();
        const auto whole = check::run(p, f, tokens, make_hooks(log1, insert_at, insert));
        if (whole.exception)
            fail("parsing threw an exception: " + *whole.exception);
        const auto it = iterate(s, p, f, tokens, make_hooks(log2, insert_at, insert),
                                use_model ? &m : nullptr, use_model && !fuzzy);
        c.extra_evaluations = it.steps.size() + 1;
        if (const auto d = check::diff(whole.node, it.final_top); !d.empty())
            fail("parsing at once and iterating differ: " + d);
        if (whole.output != it.output)
            fail("parsing at once wrote " + quote(whole.output) + ", iterating " + quote(it.output));
        if (log1->calls != log2->calls)
            fail("parsing at once made the calls " + pbt::quote_all(log1->calls) + ", iterating "
                 + pbt::quote_all(log2->calls));
        c.label_if(it.moves > 0, "iterator moved");
        if (use_model)
        {
            for (size_t i = 0; i < std::max(m.events.size(), it.steps.size()); ++i)
            {
                const auto where = "step " + std::to_string(i) + ": ";
                // An option that ends in an error isn't visited.
                if (i >= it.steps.size() && m.last_argument_failed && i + 1 == m.events.size())
                    break;
                if (i >= it.steps.size())
                    fail(where + "missing, expected " + describe(m.events[i]));
                if (i >= m.events.size())
                    fail(where + "unexpected " + describe(it.steps[i].event));
                auto e = m.events[i];
                e.index = -1;
                const auto& a = it.steps[i];
                if (fuzzy && e.kind == 'a')
                    e.name = a.event.name;
                if (!(e == a.event))
                    fail(where + "expected " + describe(e) + ", got " + describe(a.event));
                if (fuzzy)
                    continue;
                const auto top = without_codes(m.snapshot(int(i)));
                if (auto d = check::diff(top, without_codes(a.top)); !d.empty())
                    fail(where + describe(e) + ", top-level: " + d);
                const auto current = without_codes(
                    m.make_node(m.event_top[i], m.event_log[i], true));
                if (auto d = check::diff(current, without_codes(a.current)); !d.empty())
                    fail(where + describe(e) + ", parsed_arguments(): " + d);
            }
            check::compare(m, {it.final_top, it.output, {}}, tokens);
        }
        else
        {
            c.label_if(log1->events >= insert_at, "arguments inserted");
        }
        check::label(c, m);
        c.label_if(m.unknown_tokens > 0 && !m.failed, "ignored tokens");
        c.nontrivial = it.steps.size() > 1;
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C14",
        "Random declarations (nested and multiple sub-commands, ignored tokens, callbacks and "
        "insertions) and command lines, valid or not: every step of an iterator made in one of four "
        "ways is compared with the reference model's events and snapshots, the end result, output "
        "and callbacks with parsing at once, and further calls and moves are tried. Non-trivial: at "
        "least two steps.",
        300000, 2000000, run};
    return p;
}
