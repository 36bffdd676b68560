// Parsers can be used in several threads. Built with ThreadSanitizer.
#include <atomic>
#include <thread>
#include "../build.hpp"
#include "../check.hpp"
#include "../gen.hpp"
#include "../outcome.hpp"

namespace
{
    using namespace argos;

    /// What can be read without a message being written.
    std::string look(const ParsedArguments& args, const spec::Cmd& cmd, bool ci)
    {
        std::ostringstream os;
        os << spec::describe(build::observe(args, cmd, ci));
        print(args, os);
        std::function<void(const CommandView&)> views = [&](const CommandView& c)
        {
            os << c.name() << c.help() << c.section();
            for (auto& a : c.arguments())
                os << a.name() << a.help() << int(a.value_id()) << "," << int(a.argument_id());
            for (auto& o : c.options())
                os << pbt::quote_all(o.flags()) << o.help() << int(o.value_id()) << "," << int(o.argument_id());
            for (auto& s : c.subcommands())
                views(s);
        };
        views(args.command());
        for (auto& o : args.all_options())
        {
            for (auto& f : o->flags())
            {
                try
                {
                    os << pbt::quote_all(args.values(f).as_strings({"default"}));
                }
                catch (const ArgosException& e)
                {
                    os << e.what();
                }
            }
        }
        return os.str();
    }

    std::string iterate(const ArgumentParser& parser, const spec::Strings& tokens)
    {
        std::ostringstream os;
        auto it = parser.make_iterator(build::views(tokens));
        std::unique_ptr<IArgumentView> arg;
        std::string_view value;
        while (it.next(arg, value))
            os << "(" << build::view_name(arg.get()) << " " << pbt::quote(value) << ")";
        return os.str();
    }

    struct Job
    {
        spec::Parser parser;
        spec::Strings tokens;
        std::string expected;
    };

    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.texts = 40;
        cfg.junk = 2;
        cfg.misuse = 3;
        cfg.mutate = 2;
        cfg.stop_types = false;

        // A parser for all threads. What it writes would go to one stream,
        // so only command lines that don't make it write anything are used.
        auto p = gen::parser(s, cfg);
        p.auto_exit = false;
        const auto finished = model::finish(p);
        std::ostringstream log;
        const auto parser = build::make_parser(p, &log);
        struct Shared { spec::Strings tokens; std::string looks, steps; };
        std::vector<Shared> shared;
        std::vector<ParsedArguments> results;
        for (int i = s.range(1, 3); i > 0; --i)
        {
            const auto tokens = gen::tokens(s, finished, cfg);
            log.str("");
            auto args = parser.parse(build::views(tokens));
            if (args.result_code() != ParserResultCode::SUCCESS || !log.str().empty())
                continue;
            c.desc << "shared: ";
            check::describe(c, p, tokens);
            shared.push_back({tokens, look(args, finished.cmd, p.ci), iterate(parser, tokens)});
            results.push_back(std::move(args));
        }

        log.str("");

        // And parsers of their own.
        const int threads = s.range(2, 4);
        std::vector<Job> jobs;
        gen::Cfg own;
        own.texts = 50;
        own.callbacks = 40;
        own.junk = 15;
        own.version = 25;
        for (int i = 0; i < threads; ++i)
        {
            Job job;
            if (i > 0 && s.chance(40))
            {
                job = jobs[0];
            }
            else
            {
                job.parser = gen::parser(s, own);
                job.parser.line_width = unsigned(s.pick(std::vector<int>{80, 40, 20, 200}));
                job.tokens = gen::tokens(s, model::finish(job.parser), own);
                job.expected = build::outcome(job.parser, job.tokens);
            }
            c.desc << "thread " << i << ": ";
            check::describe(c, job.parser, job.tokens);
            jobs.push_back(job);
        }
        c.nontrivial = !shared.empty();
        c.label_if(!shared.empty(), "shared parser");
        c.label(std::to_string(threads) + " threads");
        c.extra_evaluations = uint64_t(threads) * (1 + 2 * shared.size());

        std::vector<std::string> errors(jobs.size());
        std::atomic<int> waiting = threads;
        auto work = [&](int number)
        {
            auto& error = errors[size_t(number)];
            --waiting;
            while (waiting > 0)
                std::this_thread::yield();
            try
            {
                for (size_t k = 0; k < shared.size() && error.empty(); ++k)
                {
                    const auto i = (k + size_t(number)) % shared.size();
                    const auto& x = shared[i];
                    if (look(results[i], finished.cmd, p.ci) != x.looks)
                        error = "a shared result looks different";
                    else if (look(parser.parse(build::views(x.tokens)), finished.cmd, p.ci) != x.looks)
                        error = "the shared parser gives another result";
                    else if (iterate(parser, x.tokens) != x.steps)
                        error = "the shared parser's iterator takes other steps";
                }
                const auto& job = jobs[size_t(number)];
                const auto outcome = build::outcome(job.parser, job.tokens);
                if (error.empty() && outcome != job.expected)
                    error = "a parser of the thread's own behaves differently:\n--- before ---\n" + job.expected
                            + "\n--- in the thread ---\n" + outcome;
            }
            catch (const pbt::Fail& e)
            {
                error = e.msg;
            }
            catch (const std::exception& e)
            {
                error = std::string("unexpected exception: ") + e.what();
            }
        };
        std::vector<std::thread> running;
        for (int i = 0; i < threads; ++i)
            running.emplace_back(work, i);
        for (auto& t : running)
            t.join();
        for (auto& e : errors)
        {
            if (!e.empty())
                pbt::fail(e);
        }
        if (!log.str().empty() && !shared.empty())
            pbt::fail("the shared parser has written something: " + log.str());
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C24",
        "2-4 threads, started together, that parse and iterate with one const parser, read the same parse "
        "results, and use parsers of their own for anything (help texts, callbacks, errors, conversions); "
        "everything they see is compared with the same done before in one thread, and ThreadSanitizer "
        "reports unsynchronized accesses. Non-trivial: there is a command line for the shared parser.",
        6000, 100000, run, {},
        {"messages of a shared parser go to the caller's stream, which isn't synchronized by the library; only "
         "command lines without messages are used with it",
         "the standard library isn't instrumented"}};
    return p;
}
