// Error messages, where they go, and how the program ends.
#include <algorithm>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "../check.hpp"
#include "../gen.hpp"
#include "../help.hpp"
#include "../layout.hpp"
#include "../lookup.hpp"

namespace
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;

    constexpr unsigned WIDE = 1000000;

    /// What was written to the parser's own stream and the standard streams.
    struct Output
    {
        std::string own, out, err;

        friend bool operator==(const Output&, const Output&) = default;

        std::string text() const
        {
            return "stream " + quote(own) + "\n  stdout " + quote(out) + "\n  stderr " + quote(err);
        }
    };

    enum class Fault
    {
        NONE, CALLBACK, CALLBACK_VIEW, ARGS, VALUE, VALUE_DEFAULT, VALUES, AS_INT, INDEX, SPLIT
    };

    struct Plan
    {
        bool own_stream = true;
        bool iterate = false;
        Fault fault = Fault::NONE;
        size_t event = 0;       // CALLBACK: number of the option or argument
        std::vector<size_t> node; // others: which (sub-)command's result
        std::string name;       // which value
        size_t index = 0;
        std::string message;    // given to error()
        std::string expected;   // what is written
        std::string expected_cmd; // full name
    };

    struct Result
    {
        std::string events;
        bool threw_in_parse = false, threw_later = false, returned = false, fault_ignored = false;
        int code = -1;
        Output at_parse, at_end;
    };

    argos::ParsedArguments find_node(const argos::ParsedArguments& args, const std::vector<size_t>& path,
                                     size_t pos = 0)
    {
        if (pos == path.size())
            return args;
        return find_node(args.subcommands()[path[pos]], path, pos + 1);
    }

    void commit_fault(const Plan& plan, const argos::ParsedArguments& top)
    {
        const auto args = find_node(top, plan.node);
        switch (plan.fault)
        {
        case Fault::NONE:
        case Fault::CALLBACK:
        case Fault::CALLBACK_VIEW:
            break;
        case Fault::ARGS:
            args.error(plan.message);
        case Fault::VALUE:
            args.values(plan.name).value(plan.index).error(plan.message);
        case Fault::VALUE_DEFAULT:
            args.values(plan.name).value(plan.index).error();
        case Fault::VALUES:
            args.values(plan.name).error(plan.message);
            break;
        case Fault::AS_INT:
            (void)args.values(plan.name).value(plan.index).as_int();
            break;
        case Fault::INDEX:
            (void)args.values(plan.name).value(plan.index);
            break;
        case Fault::SPLIT:
            (void)args.values(plan.name).value(plan.index).split(':', 50, 60);
            break;
        }
    }

    /// Parses and calls 'note' when something happens.
    void play(const Parser& p, const Strings& tokens, const Plan& plan, std::ostream* stream,
              const std::function<void(const std::string&)>& note,
              const std::function<void(int code)>& parsed)
    {
        auto hooks = std::make_shared<build::Hooks>();
        size_t k = 0;
        auto make_fault = [&](auto& x)
        {
            if (k != plan.event)
                return;
            if (plan.fault == Fault::CALLBACK)
                x.builder.error(plan.message);
            if (plan.fault == Fault::CALLBACK_VIEW)
                x.builder.error(plan.message, x.view);
        };
        hooks->option = [&](auto& path, int i, auto& x)
        {
            note("own " + path + std::to_string(i) + " " + quote(x.value));
        };
        hooks->argument = [&](auto& path, int, auto& x) { note("own argument " + path + " " + quote(x.value)); };
        hooks->any_option = [&](auto& x)
        {
            note("option " + x.view.flags().front() + " " + quote(x.value));
            make_fault(x);
            ++k;
        };
        hooks->any_argument = [&](auto& x)
        {
            note("argument " + quote(x.value));
            make_fault(x);
            ++k;
        };
        auto parser = build::make_parser(p, stream, hooks);
        if (plan.iterate)
        {
            auto it = parser.make_iterator(build::views(tokens));
            std::unique_ptr<argos::IArgumentView> arg;
            std::string_view value;
            while (it.next(arg, value))
                ;
            parsed(int(it.parsed_arguments().result_code()));
            return;
        }
        const auto args = parser.parse(build::views(tokens));
        parsed(int(args.result_code()));
        commit_fault(plan, args);
    }

    Result run_here(const Parser& p, const Strings& tokens, const Plan& plan)
    {
        Result r;
        std::ostringstream own, out, err;
        struct Redirect
        {
            std::streambuf *o, *e;
            Redirect(std::ostream& out, std::ostream& err)
                : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf()))
            {}
            ~Redirect()
            {
                std::cout.rdbuf(o);
                std::cerr.rdbuf(e);
            }
        } redirect(out, err);
        auto output = [&] { return Output{own.str(), out.str(), err.str()}; };
        bool parsed = false;
        try
        {
            play(p, tokens, plan, plan.own_stream ? &own : nullptr,
                 [&](auto& s) { r.events += s + "\n"; },
                 [&](int code)
                 {
                     parsed = true;
                     r.code = code;
                     r.at_parse = output();
                 });
            r.returned = true;
        }
        catch (const argos::ArgosException&)
        {
            (parsed ? r.threw_later : r.threw_in_parse) = true;
        }
        if (!parsed)
            r.at_parse = output();
        r.at_end = output();
        return r;
    }

    /// Writes everything at once, to a file that survives the process.
    class FileBuf : public std::streambuf
    {
    public:
        explicit FileBuf(int fd) : m_fd(fd) {}

    protected:
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            for (std::streamsize i = 0; i < n;)
            {
                const auto k = write(m_fd, s + i, size_t(n - i));
                if (k <= 0)
                    return i;
                i += k;
            }
            return n;
        }

        int overflow(int c) override
        {
            const char ch = char(c);
            return xsputn(&ch, 1) == 1 ? c : EOF;
        }

    private:
        int m_fd;
    };

    struct File
    {
        int fd = memfd_create("argos", 0);
        File() = default;
        File(const File&) = delete;
        ~File() { close(fd); }

        std::string content() const
        {
            std::string s;
            char buffer[4096];
            lseek(fd, 0, SEEK_SET);
            for (;;)
            {
                const auto n = read(fd, buffer, sizeof(buffer));
                if (n <= 0)
                    return s;
                s.append(buffer, size_t(n));
            }
        }
    };

    struct ChildResult
    {
        std::string events;
        int status = 0;
        Output output;
    };

    ChildResult run_in_child(const Parser& p, const Strings& tokens, const Plan& plan)
    {
        File own, out, err, events;
        std::cout.flush();
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid < 0)
            pbt::discard("fork failed");
        if (pid == 0)
        {
            auto* own_stream = new std::ostream(new FileBuf(own.fd));
            std::cout.rdbuf(new FileBuf(out.fd));
            std::cerr.rdbuf(new FileBuf(err.fd));
            dup2(out.fd, 1);
            auto* log = new std::ostream(new FileBuf(events.fd));
            try
            {
                play(p, tokens, plan, plan.own_stream ? own_stream : nullptr,
                     [&](auto& s) { *log << s << "\n"; },
                     [&](int code) { *log << "parsed " << code << "\n"; });
                *log << "returned\n";
            }
            catch (const argos::ArgosException& e)
            {
                *log << "exception " << e.what() << "\n";
            }
            catch (const std::exception& e)
            {
                *log << "other exception " << e.what() << "\n";
            }
            _exit(251);
        }
        ChildResult r;
        while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {}
        r.events = events.content();
        r.output = {own.content(), out.content(), err.content()};
        return r;
    }

    std::string names_of(const Opt& o)
    {
        std::string s = o.flags[0];
        for (size_t i = 1; i < o.flags.size(); ++i)
            s += ", " + o.flags[i];
        return s;
    }

    /// The name shown in errors about a value from this source; nullopt if
    /// it isn't known.
    std::optional<std::string> source_names(const Cmd& cmd, const std::string& source)
    {
        int n = 0;
        std::string result;
        for (auto& a : cmd.args)
        {
            if (a.name == source)
            {
                ++n;
                result = a.name;
            }
        }
        for (auto& o : cmd.opts)
        {
            if (o.flags[0] == source)
            {
                ++n;
                result = names_of(o);
            }
        }
        if (n != 1)
            return {};
        return result;
    }

    const Cmd* find_cmd(const model::Parsed& m, const std::string& full_name)
    {
        for (auto& i : m.insts)
        {
            if (i.full_name == full_name)
                return i.cmd;
        }
        return nullptr;
    }

    std::string check_error(const Parser& p, const Cmd& cmd, const std::string& full_name,
                            const std::string& message, const std::string& output)
    {
        auto expected = layout::paragraphs(full_name + ": " + message);
        const auto usage = help::usage(cmd, full_name, true);
        expected.insert(expected.end(), usage.begin(), usage.end());
        return layout::match(expected, output, {p.line_width, p.line_width >= WIDE, true, nullptr});
    }

    bool counts_ahead(const Cmd& c)
    {
        for (size_t i = 0; i + 1 < c.args.size(); ++i)
        {
            if (c.args[i].lo != c.args[i].hi)
                return true;
        }
        return false;
    }

    /// Chooses an error to be made by the program.
    void choose_fault(pbt::Src& s, const Parser& p, const Parser& f, const model::Parsed& m, Plan& plan,
                      const gen::Cfg&)
    {
        plan.message = s.chance(10) ? "" : gen::text(s, 8, true);
        if (s.chance(35))
        {
            // In a callback
            if (!p.opt_callback || !p.arg_callback)
                return;
            std::vector<size_t> events;
            for (size_t i = 0; i < m.events.size(); ++i)
            {
                if (m.events[i].kind == 'o' || m.events[i].kind == 'a')
                    events.push_back(i);
            }
            if (events.empty())
                return;
            plan.event = s.draw(events.size());
            const auto i = events[plan.event];
            auto& e = m.events[i];
            auto& inst = m.insts[size_t(m.event_inst[i])];
            std::string name;
            if (e.kind == 'o')
            {
                auto& o = inst.cmd->opts[size_t(e.index)];
                if (o.generated && o.type != Type::HELP)
                    return; // It writes the version first
                name = names_of(o);
            }
            else
            {
                if (e.index < 0 || (m.failed && counts_ahead(*inst.cmd)))
                    return;
                name = inst.cmd->args[size_t(e.index)].name;
            }
            plan.fault = s.chance(50) ? Fault::CALLBACK : Fault::CALLBACK_VIEW;
            plan.expected_cmd = inst.full_name;
            plan.expected = plan.fault == Fault::CALLBACK ? plan.message : name + ": " + plan.message;
            return;
        }
        if (plan.iterate)
            return;
        const auto root = m.node();
        const Node* node = &root;
        const Cmd* cmd = &f.cmd;
        std::string full_name = f.cmd.name;
        while (!node->subs.empty() && s.chance(60))
        {
            const auto i = s.draw(node->subs.size());
            plan.node.push_back(i);
            node = &node->subs[i];
            cmd = lookup::find_command(*cmd, node->name, f.ci);
            full_name += " " + node->name;
        }
        plan.expected_cmd = full_name;
        if (m.failed || s.chance(20))
        {
            plan.fault = Fault::ARGS;
            plan.expected = plan.message;
            return;
        }
        std::vector<std::string> names;
        for (auto& [name, values] : node->values)
        {
            if (!values.empty())
                names.push_back(name);
        }
        if (names.empty())
            return;
        plan.name = s.pick(names);
        auto& values = node->values.at(plan.name);
        auto& sources = node->sources.at(plan.name);
        plan.index = s.draw(values.size());
        const auto value = values[plan.index];
        const auto fault = s.pick(std::vector<Fault>{Fault::VALUE, Fault::VALUE_DEFAULT, Fault::VALUES,
                                                     Fault::AS_INT, Fault::INDEX, Fault::SPLIT});
        std::string name;
        if (fault == Fault::VALUES || fault == Fault::INDEX)
        {
            const bool same = std::all_of(sources.begin(), sources.end(),
                                          [&](auto& x) { return x == sources[0]; });
            if (same)
            {
                const auto n = source_names(*cmd, sources[0]);
                if (!n)
                    return;
                name = *n + ": ";
            }
        }
        else
        {
            const auto n = source_names(*cmd, sources[plan.index]);
            if (!n)
                return;
            name = *n + ": ";
        }
        switch (fault)
        {
        case Fault::VALUE:
        case Fault::VALUES:
            plan.expected = name + plan.message;
            break;
        case Fault::VALUE_DEFAULT:
            plan.expected = name + "Invalid value: " + value + ".";
            break;
        case Fault::AS_INT:
            if (value.find_first_not_of("0123456789+-xXabcdefABCDEF \t\r\n\v\f") == std::string::npos)
                return;
            plan.expected = name + "Invalid value: " + value + ".";
            break;
        case Fault::INDEX:
            plan.index = values.size() + s.draw(3);
            plan.expected = name + "Index is too great: " + std::to_string(plan.index)
                            + ". There are only " + std::to_string(values.size()) + " values.";
            break;
        case Fault::SPLIT:
            plan.expected = name + "Invalid value: \"" + value
                            + "\". Must have at least 50 values separated by \":\".";
            break;
        default:
            break;
        }
        plan.fault = fault;
    }


    void run(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.special = 35;
        cfg.use_special = 35;
        cfg.version = 20;
        cfg.sub = 45;
        cfg.junk = 14;
        cfg.callbacks = 50;
        cfg.texts = 30;
        auto p = gen::parser(s, cfg);
        p.auto_exit = false;
        p.opt_callback = s.chance(70);
        p.arg_callback = s.chance(70);
        p.line_width = s.chance(60) ? WIDE : unsigned(s.range(25, 160));
        if (s.chance(25))
            p.cmd.texts[Text::ERROR_USAGE] = s.chance(40) ? "" : gen::text(s, 6, true);
        if (s.chance(40))
            p.exit_codes = {int(s.range(0, 250)), int(s.range(0, 250))};
        const auto f = model::finish(p);
        const auto tokens = gen::tokens(s, f, cfg);
        const auto m = model::parse(f, tokens);
        if (m.unspecified)
            pbt::discard("unspecified: " + m.why);
        Plan plan;
        plan.own_stream = s.chance(70);
        plan.iterate = s.chance(25);
        if (s.chance(65))
            choose_fault(s, p, f, m, plan, cfg);
        const bool child = s.chance(30);
        check::describe(c, p, tokens);
        c.desc << "stream " << (plan.own_stream ? "set" : "not set") << (plan.iterate ? ", iterated" : "")
               << ", fault " << int(plan.fault) << " event " << plan.event << " name " << quote(plan.name)
               << " index " << plan.index << " message " << quote(plan.message) << "\n";

        const auto r = run_here(p, tokens, plan);
        const bool in_callback = plan.fault == Fault::CALLBACK || plan.fault == Fault::CALLBACK_VIEW;

        // What is written while parsing
        auto& err_dest = plan.own_stream ? r.at_parse.own : r.at_parse.err;
        auto& out_dest = plan.own_stream ? r.at_parse.own : r.at_parse.out;
        const auto outputs = "\noutput:\n  " + r.at_end.text();
        auto only = [&](const std::string& dest)
        {
            if (r.at_parse.own.size() + r.at_parse.out.size() + r.at_parse.err.size() != dest.size())
                fail("something was written to the wrong stream" + outputs);
        };
        if (in_callback)
        {
            if (!r.threw_in_parse)
                fail("an error in a callback did not end in an exception" + outputs);
            only(err_dest);
            const auto* cmd = find_cmd(m, plan.expected_cmd);
            if (auto d = check_error(p, *cmd, plan.expected_cmd, plan.expected, err_dest); !d.empty())
                fail("message of error in callback, expected " + quote(plan.expected) + ": " + d
                     + "\n--- output ---\n" + err_dest);
            c.label("error in callback");
        }
        else
        {
            if (r.threw_in_parse)
                fail("parsing threw an exception" + outputs);
            if (m.failed)
            {
                only(err_dest);
                const auto* cmd = find_cmd(m, m.error_cmd);
                if (auto d = check_error(p, *cmd, m.error_cmd, m.error, err_dest); !d.empty())
                    fail("error message, expected " + quote(m.error_cmd + ": " + m.error) + ": " + d
                         + "\n--- output ---\n" + err_dest);
                if (r.code != int(Code::FAILURE))
                    fail("the result code isn't FAILURE");
            }
            else if (m.help_written)
            {
                only(out_dest);
                const auto* cmd = find_cmd(m, m.help_cmd);
                const layout::Options o{p.line_width, p.line_width >= WIDE, true, nullptr};
                const auto d = layout::match(help::text(*cmd, m.help_cmd, true), out_dest, o);
                if (!d.empty() && !layout::match(help::text(*cmd, m.help_cmd, false), out_dest, o).empty())
                    fail("help text: " + d + "\n--- output ---\n" + out_dest);
            }
            else if (m.version_written)
            {
                only(out_dest);
                if (out_dest != p.cmd.name + " " + *p.version + "\n")
                    fail("version: " + quote(out_dest));
            }
            else
            {
                only("");
            }
        }
        // The error made by the program
        const bool later = plan.fault != Fault::NONE && !in_callback;
        if (later)
        {
            if (!r.threw_later)
                fail("the error did not end in an exception" + outputs);
            auto after = r.at_end;
            auto& dest = plan.own_stream ? after.own : after.err;
            dest = dest.substr(err_dest.size());
            const Cmd* cmd = find_cmd(m, plan.expected_cmd);
            if (auto d = check_error(p, *cmd, plan.expected_cmd, plan.expected, dest); !d.empty())
                fail("message of error, expected " + quote(plan.expected) + ": " + d
                     + "\n--- output ---\n" + dest);
            dest.clear();
            if (after.own != (plan.own_stream ? "" : r.at_parse.own) || after.out != r.at_parse.out
                || (plan.own_stream && after.err != r.at_parse.err))
                fail("the error was written to several streams" + outputs);
            static const char* const NAMES[] = {"", "", "", "ParsedArguments::error", "value error",
                                                "default value error", "values error",
                                                "conversion error", "index error", "split error"};
            c.label(NAMES[int(plan.fault)]);
        }
        else if (!(r.at_end == r.at_parse))
        {
            fail("something was written after parsing" + outputs);
        }
        c.label_if(!plan.own_stream, "standard streams");
        c.nontrivial = m.failed || m.help_written || m.version_written || plan.fault != Fault::NONE;
        if (!child)
            return;

        // With auto-exit
        auto q = p;
        q.auto_exit = true;
        const auto x = run_in_child(q, tokens, plan);
        c.extra_evaluations = 1;
        const Opt* stop = m.insts[0].stop;
        const bool exits = !m.failed && stop && (stop->type == Type::HELP || stop->type == Type::EXIT);
        const int error_code = p.exit_codes ? p.exit_codes->first : 64;
        const int normal_code = p.exit_codes ? p.exit_codes->second : 0;
        const auto context = "\nwith auto-exit:\n" + x.events + "output:\n  " + x.output.text()
                             + "\nwithout:\n" + r.events + "output:\n  " + r.at_end.text();
        auto expect_exit = [&](int code, const std::string& why)
        {
            if (!WIFEXITED(x.status) || WEXITSTATUS(x.status) != code)
                fail(why + ": expected exit code " + std::to_string(code) + ", got "
                     + (WIFEXITED(x.status) ? std::to_string(WEXITSTATUS(x.status)) : "a signal") + context);
        };
        auto events = r.events;
        const Output* output = &r.at_end;
        if (in_callback)
        {
            expect_exit(error_code, "error in callback");
        }
        else if (m.failed)
        {
            expect_exit(error_code, "failure");
            output = &r.at_parse;
        }
        else if (exits)
        {
            expect_exit(normal_code, stop->type == Type::HELP ? "help option" : "exit option");
            output = &r.at_parse;
            c.label(stop->type == Type::HELP ? "auto-exit at help option" : "auto-exit at exit option");
        }
        else
        {
            events += "parsed " + std::to_string(r.code) + "\n";
            if (later)
            {
                expect_exit(error_code, "error after parsing");
            }
            else
            {
                expect_exit(251, "no error");
                events += "returned\n";
            }
        }
        if (x.events != events)
            fail("auto-exit changes the callbacks or where the program exits" + context);
        if (!(x.output == *output))
            fail("auto-exit changes the output" + context);
        c.label("auto-exit");
        c.label_if(m.failed, "auto-exit at parse error");
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C18",
        "Random declarations and command lines (half of them wrong), with and without a stream of "
        "their own, and errors reported by the program itself: in callbacks, through results and values, "
        "by conversions, by indexing and by splitting. What is written to the stream, standard output "
        "and standard error must be exactly the expected message followed by the usage text; with "
        "auto-exit (in a child process) the same must be written before the program ends with the "
        "configured exit code, after the same callbacks. Non-trivial: something was written.",
        120000, 1500000, run};
    return p;
}
