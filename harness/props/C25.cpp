// Failures that come from outside (allocations, callbacks, streams) pass
// through unchanged, leak nothing and leave every object usable.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <new>
#include <ostream>
#include <streambuf>
#include <sanitizer/common_interface_defs.h>
#include "../build.hpp"
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    /// Allocations of the current process.
    struct Heap
    {
        int64_t live = 0;
        bool armed = false;
        bool sticky = false;  // all the following ones fail as well
        uint64_t until = 0;   // the number of the one that fails, 0: none
        uint64_t made = 0;    // while armed
        bool fired = false;
    } heap;
}

void* operator new(size_t size)
{
    if (heap.armed)
    {
        ++heap.made;
        if (heap.until != 0 && (heap.made == heap.until || (heap.sticky && heap.made > heap.until)))
        {
            heap.fired = true;
            throw std::bad_alloc();
        }
    }
    void* p = std::malloc(size ? size : 1);
    if (!p)
        throw std::bad_alloc();
    ++heap.live;
    return p;
}

void operator delete(void* p) noexcept
{
    if (p)
    {
        --heap.live;
        std::free(p);
    }
}

void* operator new(size_t size, const std::nothrow_t&) noexcept
{
    try
    {
        return operator new(size);
    }
    catch (const std::bad_alloc&)
    {
        return nullptr;
    }
}

void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void* operator new[](size_t size) { return operator new(size); }
void* operator new[](size_t size, const std::nothrow_t& t) noexcept { return operator new(size, t); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace
{
    using namespace argos;
    using pbt::fail;

    [[noreturn]] void terminated()
    {
        heap.armed = false;
        std::fputs("ERROR: an exception can't get out, terminate() has been called\n", stderr);
        __sanitizer_print_stack_trace();
        std::abort();
    }

    struct Armed
    {
        Armed(uint64_t until, bool sticky)
        {
            heap.until = until;
            heap.sticky = sticky;
            heap.made = 0;
            heap.fired = false;
            heap.armed = true;
        }
        ~Armed() { heap.armed = false; }
    };

    /// True if an allocation failure comes out of f.
    template <typename F>
    bool failing(uint64_t until, bool sticky, F f)
    {
        try
        {
            Armed a(until, sticky);
            f();
        }
        catch (const std::bad_alloc&)
        {
            return true;
        }
        return false;
    }

    /// f must do the same each time it's called. Whatever is only allocated
    /// once is not a leak.
    template <typename F>
    void leak_free(const char* what, F f)
    {
        int64_t lost = 0;
        for (int i = 0; i < 3; ++i)
        {
            const auto before = heap.live;
            f();
            lost = heap.live - before;
            if (lost == 0)
                return;
        }
        fail(std::string(what) + ": " + std::to_string(lost) + " allocations are still there afterwards");
    }

    /// Doesn't allocate. Fails after 'limit' bytes.
    class Sink : public std::streambuf
    {
    public:
        size_t limit = sizeof(m_data);
        std::string_view text() const { return {m_data, m_size}; }
        void clear() { m_size = 0; }
        static constexpr size_t capacity() { return sizeof(m_data); }
    protected:
        int_type overflow(int_type c) override
        {
            const char ch = traits_type::to_char_type(c);
            return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            const auto room = std::min(size_t(n), limit - std::min(limit, m_size));
            std::memcpy(m_data + m_size, s, room);
            m_size += room;
            return std::streamsize(room);
        }
    private:
        char m_data[1 << 18];
        size_t m_size = 0;
    };

    struct Foreign
    {
        int number;
    };

    template <typename E>
    struct Derived : E
    {
        explicit Derived(int n) : E("Thrown by a callback."), number(n) {}
        int number;
    };

    struct Look
    {
        std::string values;
        std::string text; // what has been written
        friend bool operator==(const Look&, const Look&) = default;
    };

    struct Ctx
    {
        pbt::Src& s;
        pbt::Case& c;
        const spec::Parser& p;
        spec::Parser finished;
        std::vector<std::string_view> args;
        Sink& sink;
        std::ostream& os;
        build::HooksPtr hooks;
        Look expected;
        // The program's name is taken from argv.
        bool unnamed = false;
        std::vector<char*> argv = {}, other_argv = {};

        ArgumentParser make() const
        {
            if (!unnamed)
                return build::make_parser(p, &os, hooks);
            ArgumentParser parser;
            build::apply_settings(parser, p, &os, hooks);
            build::apply_contents(parser, p, hooks);
            return parser;
        }

        template <typename P>
        ParsedArguments parse(P& parser, bool other = false) const
        {
            if (!unnamed)
                return parser.parse(args);
            auto& a = other ? other_argv : argv;
            return parser.parse(int(a.size()), const_cast<char**>(a.data()));
        }

        template <typename P>
        ArgumentIterator iterate(P& parser) const
        {
            if (!unnamed)
                return parser.make_iterator(args);
            return parser.make_iterator(int(argv.size()), const_cast<char**>(argv.data()));
        }

        Look look(const ParsedArguments& a) const
        {
            return {spec::describe(build::observe(a, finished.cmd, p.ci)), std::string(sink.text())};
        }

        /// An internal string stream may lose text when an allocation fails.
        void same(const ParsedArguments& a, const char* what, bool with_text = true) const
        {
            const auto l = look(a);
            if (l.values != expected.values || (with_text && l.text != expected.text))
                fail(std::string(what) + "\n--- expected ---\n" + expected.values + expected.text
                     + "\n--- actual ---\n" + l.values + l.text);
        }

        void parse_again(const ArgumentParser& parser, const char* what) const
        {
            sink.clear();
            os.clear();
            same(parse(parser), what);
        }

        /// Anything but a crash will do.
        void poke(ArgumentParser& parser) const
        {
            sink.clear();
            try
            {
                parser.write_help_text();
                (void)parser.option_style();
            }
            catch (const ArgosException&) {}
            try
            {
                (void)parse(parser);
            }
            catch (const ArgosException&) {}
            try
            {
                parser.add(Argument("zzz"));
                (void)parse(parser);
            }
            catch (const ArgosException&) {}
        }
    };

    /// Runs test(k, sticky) for some of the allocations f makes.
    template <typename F, typename T>
    void each_failure(Ctx& x, const char* what, F count, T test)
    {
        uint64_t n = 0;
        {
            count(); // warm up
            Armed a(0, false);
            count();
            n = heap.made;
        }
        if (n == 0)
            return;
        const int times = int(std::min<uint64_t>(n, 12));
        for (int i = 0; i < times; ++i)
        {
            const uint64_t k = 1 + (n <= 12 ? uint64_t(i) : x.s.draw(n));
            const bool sticky = x.s.chance(30);
            leak_free(what, [&] { test(k, sticky); });
        }
        x.c.extra_evaluations += uint64_t(times);
        x.c.labels["allocation failures: " + std::string(what)] += uint64_t(times);
    }

    void views(const CommandView& c)
    {
        (void)c.name();
        (void)c.help();
        (void)c.section();
        for (auto& a : c.arguments())
            (void)a.help();
        for (auto& o : c.options())
            (void)o.flags();
        for (auto& sub : c.subcommands())
            views(sub);
    }

    template <typename F>
    void attempt(F f)
    {
        try
        {
            f();
        }
        catch (const ArgosException&) {}
    }

    void read(const Ctx& x, const ParsedArguments& args, bool convert)
    {
        (void)build::observe(args, x.finished.cmd, x.p.ci);
        views(args.command());
        for (auto& o : args.all_options())
            attempt([&] { (void)args.values(*o).as_strings(); });
        for (auto& a : args.all_arguments())
            attempt([&] { (void)args.values(*a).split(',', 0, 100).as_strings(); });
        const ParsedArguments copy(args);
        ParsedArguments other(copy);
        other = args;
        print(other, x.os);
        if (!convert)
            return;
        // These write messages.
        for (auto& o : args.all_options())
            attempt([&] { (void)args.values(*o).as_ints(); });
        for (auto& a : args.all_arguments())
            attempt([&] { (void)args.values(*a).as_doubles(); });
        attempt([&] { args.error("An error."); });
    }

    void drain(ArgumentIterator& it, size_t limit)
    {
        std::unique_ptr<IArgumentView> arg;
        std::string_view value;
        for (size_t i = 0; i < limit && it.next(arg, value); ++i) {}
    }

    void allocations(Ctx& x)
    {
        const size_t limit = 100 + 20 * x.args.size();
        switch (x.s.range(0, 6))
        {
        case 0:
            each_failure(x, "declaring", [&] { (void)x.make(); },
                         [&](uint64_t k, bool sticky)
            {
                ArgumentParser parser(x.p.cmd.name);
                parser.stream(&x.os).auto_exit(false);
                failing(k, sticky, [&]
                {
                    build::apply_settings(parser, x.p, &x.os);
                    build::apply_contents(parser, x.p);
                });
                parser.stream(&x.os).auto_exit(false);
                x.poke(parser);
            });
            break;
        case 1:
        {
            const auto parser = x.make();
            each_failure(x, "parsing with a const parser", [&] { (void)x.parse(parser); },
                         [&](uint64_t k, bool sticky)
            {
                x.sink.clear();
                std::optional<ParsedArguments> result;
                if (!failing(k, sticky, [&] { result.emplace(x.parse(parser)); }))
                    x.same(*result, "an allocation failure has changed the result", !heap.fired);
                x.parse_again(parser, "an allocation failure has changed the const parser");
            });
            break;
        }
        case 2:
        {
            each_failure(x, "parsing", [&]
            {
                const bool armed = heap.armed;
                heap.armed = false;
                auto parser = x.make();
                heap.armed = armed;
                (void)x.parse(parser);
            }, [&](uint64_t k, bool sticky)
            {
                auto parser = x.make();
                x.sink.clear();
                std::optional<ParsedArguments> result;
                if (!failing(k, sticky, [&] { result.emplace(x.parse(parser)); }))
                    x.same(*result, "an allocation failure has changed the result", !heap.fired);
                x.poke(parser);
            });
            break;
        }
        case 3:
        {
            const auto parser = x.make();
            each_failure(x, "iterating", [&]
            {
                auto it = x.iterate(parser);
                drain(it, limit);
            }, [&](uint64_t k, bool sticky)
            {
                std::optional<ArgumentIterator> it;
                failing(k, sticky, [&]
                {
                    it.emplace(x.iterate(parser));
                    drain(*it, limit);
                });
                if (it)
                {
                    attempt([&] { drain(*it, limit); });
                    attempt([&] { drain(*it, limit); });
                    attempt([&] { (void)it->parsed_arguments(); });
                }
                it.reset();
                x.parse_again(parser, "an allocation failure has changed the const parser");
            });
            break;
        }
        case 4:
        {
            const auto parser = x.make();
            const auto args = x.parse(parser);
            const bool convert = x.s.chance(50);
            each_failure(x, "reading results", [&] { x.sink.clear(); read(x, args, convert); },
                         [&](uint64_t k, bool sticky)
            {
                x.sink.clear();
                failing(k, sticky, [&] { read(x, args, convert); });
                if (x.look(args).values != x.expected.values)
                    fail("an allocation failure has changed the results");
                x.parse_again(parser, "an allocation failure has changed the const parser");
            });
            break;
        }
        case 5:
        {
            auto command = build::make_command(x.p.cmd);
            each_failure(x, "copy_from", [&]
            {
                ArgumentParser target("other");
                target.copy_from(command);
            }, [&](uint64_t k, bool sticky)
            {
                ArgumentParser target("other");
                Command other("other");
                target.stream(&x.os).auto_exit(false).option_style(OptionStyle(x.p.style));
                failing(k, sticky, [&]
                {
                    target.copy_from(command);
                    other.copy_from(command);
                });
                x.poke(target);
                attempt([&] { other.help("x"); });
            });
            break;
        }
        default:
        {
            auto command = build::make_command(x.p.cmd);
            Argument argument("a");
            argument.help("short").section("section").count(1, 3).alias("-x");
            Option option({"-x", "--exclude"});
            option.help("help").section("section").argument("Z").initial_value("1");
            each_failure(x, "copying declarations", [&]
            {
                Command c("x");
                c = command;
                Option o(option);
                Argument a(argument);
            }, [&](uint64_t k, bool sticky)
            {
                Command c("x");
                Option o("-o");
                Argument a("A");
                failing(k, sticky, [&]
                {
                    c = command;
                    o = option;
                    a = argument;
                });
                attempt([&] { c.help("x"); });
                attempt([&] { o.help("x"); });
                attempt([&] { a.help("x"); });
                attempt([&]
                {
                    ArgumentParser parser("prog");
                    parser.stream(&x.os).auto_exit(false).add(c);
                    (void)parser.parse({"x"});
                });
            });
            break;
        }
        }
    }

    void callbacks(Ctx& x)
    {
        auto log = std::make_shared<std::vector<std::string>>();
        auto stop_at = std::make_shared<size_t>(size_t(-1));
        auto number = std::make_shared<int>(0);
        auto called = [=](std::string what)
        {
            log->push_back(std::move(what));
            if (log->size() != *stop_at)
                return;
            switch (*number % 5)
            {
            case 0: throw Foreign{*number};
            case 1: throw Derived<std::runtime_error>(*number);
            case 2: throw ArgosException("Thrown " + std::to_string(*number));
            case 3: throw *number;
            default: throw Derived<std::out_of_range>(*number);
            }
        };
        auto name = [](const auto& a)
        {
            return build::view_name(&a.view) + " " + pbt::quote(a.value);
        };
        x.hooks->option = [=](const std::string& path, int index, OptionCallbackArguments& a)
        {
            called(path + std::to_string(index) + " " + name(a));
        };
        x.hooks->argument = [=](const std::string& path, int index, ArgumentCallbackArguments& a)
        {
            called(path + std::to_string(index) + " " + name(a));
        };
        x.hooks->any_option = [=](OptionCallbackArguments& a) { called("any " + name(a)); };
        x.hooks->any_argument = [=](ArgumentCallbackArguments& a) { called("any " + name(a)); };
        const auto parser = x.make();
        x.parse_again(parser, "callbacks that do nothing change the result");
        const auto all = *log;
        x.c.label_if(!all.empty(), "callbacks");
        if (all.empty())
            return;

        // The same vector may be of another size at the end
        auto body = [&](size_t at, int num, bool iterate)
        {
            {
                log->clear();
                *stop_at = at;
                *number = num;
                bool thrown = false;
                std::optional<ArgumentIterator> it;
                try
                {
                    if (iterate)
                    {
                        it.emplace(x.iterate(parser));
                        drain(*it, 100000);
                    }
                    else
                        (void)x.parse(parser, true);
                }
                catch (const Foreign& e)
                {
                    thrown = e.number == num;
                }
                catch (const Derived<std::runtime_error>& e)
                {
                    thrown = e.number == num;
                }
                catch (const ArgosException& e)
                {
                    thrown = e.what() == "Thrown " + std::to_string(num);
                }
                catch (const Derived<std::out_of_range>& e)
                {
                    thrown = e.number == num;
                }
                catch (int e)
                {
                    thrown = e == num;
                }
                catch (const std::exception&) {}
                if (!thrown)
                    fail("the exception of call " + std::to_string(at) + " didn't come out");
                if (!std::equal(log->begin(), log->end(), all.begin(), all.begin() + std::ptrdiff_t(at)))
                    fail("calls before the exception: " + pbt::quote_all(*log) + ", without it "
                         + pbt::quote_all(all));
                *stop_at = size_t(-1);
                if (it)
                {
                    attempt([&] { drain(*it, 1000); });
                    attempt([&] { (void)it->parsed_arguments(); });
                }
            }
            log->clear();
            x.parse_again(parser, "a callback's exception has changed the parser");
            if (*log != all)
                fail("other callbacks after an exception");
            log->clear();
            log->shrink_to_fit();
        };
        for (int i = 0; i < 3; ++i)
        {
            const auto at = 1 + size_t(x.s.draw(all.size()));
            const bool iterate = x.s.chance(40);
            const int num = 100 + x.s.range(0, 19);
            log->clear();
            log->shrink_to_fit();
            leak_free("a callback's exception", [&] { body(at, num, iterate); });
            ++x.c.extra_evaluations;
            x.c.label("callbacks that throw");
        }
    }

    void texts(Ctx& x)
    {
        // A text's callback throws.
        bool throws = false;
        auto text = [&]() -> std::string
        {
            if (throws)
                throw Foreign{3};
            return "The text.";
        };
        ArgumentParser parser = x.make();
        switch (x.s.range(0, 3))
        {
        case 0:
            parser.text(TextId::FINAL_TEXT, text);
            break;
        case 1:
            parser.text(TextId::HELP, text);
            break;
        case 2:
            attempt([&] { parser.add(Argument("QQ").optional(true).help(text)); });
            break;
        default:
            parser.text(TextId::USAGE, text);
            break;
        }
        const ArgumentParser& const_parser = parser;
        x.sink.clear();
        const_parser.write_help_text();
        const std::string expected(x.sink.text());
        const bool shown = expected.find("The text.") != std::string::npos;
        leak_free("a text's exception", [&]
        {
            throws = true;
            x.sink.clear();
            bool thrown = false;
            try
            {
                const_parser.write_help_text();
            }
            catch (const Foreign& e)
            {
                thrown = e.number == 3;
            }
            if (!thrown && (shown || x.sink.text() != expected))
                fail("the exception of a text's callback didn't come out of the help text\n--- before ---\n" + expected + "--- after ---\n" + std::string(x.sink.text()));
            if (thrown && expected.compare(0, x.sink.text().size(), x.sink.text()) != 0)
                fail("what is written before the exception differs");
            try
            {
                (void)x.parse(const_parser, true);
            }
            catch (const Foreign& e) {}
            throws = false;
            x.sink.clear();
            const_parser.write_help_text();
            if (x.sink.text() != expected)
                fail("another help text after an exception");
        });
        x.c.label("texts that throw");
        x.c.extra_evaluations += 3;
    }

    void streams(Ctx& x)
    {
        const auto parser = x.make();
        const bool help = x.s.chance(30);
        std::string expected;
        auto act = [&](bool compare)
        {
            x.sink.clear();
            if (help)
                parser.write_help_text();
            else
            {
                const auto values = x.look(x.parse(parser)).values;
                if (compare && values != x.expected.values)
                    fail("a failing stream has changed the result\n--- expected ---\n" + x.expected.values
                         + "\n--- actual ---\n" + values);
            }
        };
        act(true);
        expected = x.sink.text();
        x.c.label_if(!expected.empty(), "texts to a failing stream");
        if (expected.empty())
            return;
        for (int i = 0; i < 3; ++i)
        {
            const auto limit = size_t(x.s.draw(expected.size()));
            const bool exceptions = x.s.chance(50);
            leak_free("a failing stream", [&]
            {
                x.os.clear();
                x.sink.limit = limit;
                bool thrown = false;
                if (exceptions)
                    x.os.exceptions(std::ios::badbit | std::ios::failbit);
                try
                {
                    act(true);
                }
                catch (const std::ios_base::failure&)
                {
                    thrown = true;
                }
                const bool bad = !x.os;
                x.os.exceptions(std::ios::goodbit);
                x.os.clear();
                x.sink.limit = Sink::capacity();
                if (x.sink.text() != std::string_view(expected).substr(0, limit))
                    fail("the stream has got something else before it failed: "
                         + pbt::quote(x.sink.text()) + " of " + pbt::quote(expected));
                if (!bad)
                    fail("the stream's failure isn't visible in its state");
                if (thrown != exceptions)
                    fail("the stream's exception didn't come out");
                act(true);
                if (x.sink.text() != expected)
                    fail("a failing stream has changed the parser");
            });
            ++x.c.extra_evaluations;
        }
    }

    /// libstdc++'s variant<string, function> can't be copied when an
    /// allocation fails (its destructor finds no alternative), so the texts
    /// of declarations are such that copying them doesn't allocate.
    void shorten(spec::Common& c)
    {
        c.help_callback = false;
        if (c.help && c.help->size() > 15)
            c.help = "A short text.";
    }

    void shorten(spec::Cmd& c)
    {
        shorten(static_cast<spec::Common&>(c));
        c.text_callbacks = false;
        for (auto& [id, text] : c.texts)
        {
            if (text.size() > 15)
                text = "Short text.";
        }
        for (auto& a : c.args)
            shorten(static_cast<spec::Common&>(a));
        for (auto& o : c.opts)
            shorten(static_cast<spec::Common&>(o));
        for (auto& sub : c.cmds)
            shorten(sub);
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        const int mode = s.range(0, 9);
        gen::Cfg cfg;
        cfg.texts = 30;
        cfg.callbacks = 60;
        cfg.version = 15;
        auto p = gen::parser(s, cfg);
        p.auto_exit = false;
        if (s.chance(60))
            p.opt_callback = true;
        if (s.chance(60))
            p.arg_callback = true;
        if (s.chance(25))
            gen::decorate(s, p);
        p.line_width = unsigned(s.pick(std::vector<int>{80, 80, 40, 20}));
        if (mode >= 5)
            shorten(p.cmd);
        const auto finished = model::finish(p);
        const auto tokens = gen::tokens(s, finished, cfg);
        check::describe(c, p, tokens);

        std::set_terminate(terminated);
        static Sink sink;
        sink.clear();
        sink.limit = Sink::capacity();
        std::ostream os(&sink);
        Ctx x{s, c, p, finished, build::views(tokens), sink, os, std::make_shared<build::Hooks>(), {}};
        std::string name = "dir/" + p.cmd.name, other = "dir/Other";
        if (s.chance(25) && p.cmd.name.find('/') == std::string::npos
            && std::none_of(tokens.begin(), tokens.end(),
                            [](auto& t) { return t.find('\0') != std::string::npos; }))
        {
            x.unnamed = true;
            x.argv = {name.data()};
            x.other_argv = {other.data()};
            for (auto& t : x.args)
            {
                x.argv.push_back(const_cast<char*>(t.data()));
                x.other_argv.push_back(const_cast<char*>(t.data()));
            }
            c.desc << "named by argv[0]\n";
        }
        {
            const auto parser = x.make();
            x.expected = x.look(x.parse(parser));
        }
        if (sink.text().size() == Sink::capacity())
            pbt::discard("too much text");
        leak_free("declaring, parsing and reading", [&]
        {
            sink.clear();
            const auto parser = x.make();
            const auto args = x.parse(parser);
            x.same(args, "another result");
            read(x, args, true);
        });
        c.nontrivial = true;
        switch (mode)
        {
        case 0: case 1:
            callbacks(x);
            break;
        case 2:
            texts(x);
            break;
        case 3: case 4:
            streams(x);
            break;
        default:
            allocations(x);
            break;
        }
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C25",
        "a failure is injected into one operation on a random declaration and command line: the k-th "
        "allocation (or all from the k-th) while declaring, parsing (const or not), iterating, reading or "
        "copying; an exception of the k-th callback or of a text's callback; a stream that fails after n "
        "bytes, with or without exceptions. The failure must come out as it is, all allocations must be "
        "gone afterwards, and const objects must behave as before. Non-trivial: all.",
        45000, 800000, run, {},
        {"only operator new fails, one allocation or all following ones",
         "texts are short where allocations fail, because copying libstdc++'s variant<string, function> isn't "
         "exception safe",
         "what a non-const object is like after a failure is not specified, it's only used and destroyed"}};
    return p;
}
