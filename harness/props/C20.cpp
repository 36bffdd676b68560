// The amalgamated edition behaves identically to the library.
#include "../api.hpp"
#include "../check.hpp"
#include "../gen.hpp"
#include "../outcome.hpp"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include <streambuf>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace ssbuild
{
    std::string outcome(const spec::Parser& p, const spec::Strings& tokens);
    void api_case(pbt::Src& s, pbt::Case& c, std::string* log);
    std::string conversions(const spec::Strings& values);
    void program(const spec::Parser& p, const spec::Strings& argv, std::ostream* stream);
}

namespace
{
    // Declarations the library must reject, so that rejection is compared too.
    void spoil(pbt::Src& s, spec::Parser& p)
    {
        auto& c = p.cmd.cmds.empty() || s.chance(50) ? p.cmd : p.cmd.cmds[0];
        switch (s.draw(5))
        {
        case 0:
            if (c.opts.size() > 1)
                c.opts[1].flags.push_back(c.opts[0].flags[0]);
            break;
        case 1:
            if (!c.opts.empty())
                c.opts[0].flags.push_back(s.pick(spec::Strings{"x", "", "-", "--a=b", "-ab", "-a b", "/a=b"}));
            break;
        case 2:
            if (!c.opts.empty())
            {
                c.opts[0].argument = "A";
                c.opts[0].constant = "C";
            }
            break;
        case 3:
            c.require = true;
            break;
        default:
            if (!c.opts.empty())
            {
                c.opts[0].set_op = true;
                c.opts[0].op = spec::Op(s.draw(4));
                c.opts[0].mandatory = true;
            }
            break;
        }
    }

    void compare(const std::string& lib, const std::string& ss)
    {
        if (lib == ss)
            return;
        size_t i = 0;
        while (i < lib.size() && i < ss.size() && lib[i] == ss[i])
            ++i;
        const auto from = i > 200 ? i - 200 : 0;
        auto part = [&](const std::string& t) { return from < t.size() ? t.substr(from, 500) : ""; };
        pbt::fail("the editions differ:\n--- library ---\n..." + part(lib)
                  + "\n--- single source ---\n..." + part(ss));
    }

    /// The same calls of the two editions.
    void run_api(pbt::Src& s, pbt::Case& c)
    {
        const auto start = s.recorded().size();
        std::string lib, ss;
        build::api_case(s, c, &lib);
        auto s2 = pbt::Src::repeat({s.recorded().begin() + std::ptrdiff_t(start), s.recorded().end()});
        pbt::Case c2;
        ssbuild::api_case(s2, c2, &ss);
        c.nontrivial = lib.size() > 1000;
        c.extra_evaluations += c2.extra_evaluations;
        c.label("random calls");
        compare(lib, ss);
    }

    // Values that some conversion accepts or barely doesn't.
    const spec::Strings VALUES = {
        "0", "1", "false", "true", "-1", "12", "2147483648", "-2147483648", "4294967296", "1e999", "1e-999",
        "-1e999", "0x1F", "010", "1.5", "", "a,b", "a,b,c", "1,2,", "99999999999999999999", " 1", "1 ", "nan"};

    void run_conversions(pbt::Src& s, pbt::Case& c)
    {
        static const spec::Strings MORE = {
            "2147483647", "-2147483649", "4294967295", "9223372036854775807", "9223372036854775808",
            "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
            "0xFFFFFFFF", "0x100000000", "-0x80000000", "037777777777", "0b101", "101", "zz", "ZZ", "+5", "-0", "--1",
            "1e5", "0x1p-3", "inf", "-infinity", "NAN", "1e38", "4e38", "1e308", "2e308", "1e-40", ".5", "5.", "1,5",
            ",", ",,", "a,,b", "1,2,3,4,5", "\xc3\xa6", "1a", "0x", "0x1G", "08", "2", "12 3"};
        spec::Strings values;
        for (int n = s.range(1, 3); n > 0; --n)
        {
            if (s.chance(15))
            {
                std::string v;
                for (int i = s.range(1, 10); i > 0; --i)
                    v += s.pick(spec::Strings{"0", "1", "2", "7", "9", "a", "F", "x", "-", "+", ".", "e", ",", " "});
                values.push_back(v[0] == '-' ? "0" + v : v);
            }
            else
            {
                values.push_back(s.pick(s.chance(30) ? VALUES : MORE));
            }
        }
        c.desc << "values " << pbt::quote_all(values) << "\n";
        c.label("conversions");
        c.nontrivial = true;
        compare(build::conversions(values), ssbuild::conversions(values));
    }

    class FileBuf : public std::streambuf
    {
    public:
        FileBuf(int fd, const char* name) : m_fd(fd), m_name(name) {}

        std::streamsize xsputn(const char* p, std::streamsize n) override
        {
            static const char* previous = nullptr;
            if (previous != m_name && write(m_fd, m_name, strlen(m_name)) < 0)
                return 0;
            previous = m_name;
            for (std::streamsize i = 0; i < n;)
            {
                const auto k = write(m_fd, p + i, size_t(n - i));
                if (k <= 0)
                    return i;
                i += k;
            }
            return n;
        }

        int overflow(int c) override
        {
            const char ch = char(c);
            return xsputn(&ch, 1) == 1 ? c : EOF;
        }

    private:
        int m_fd;
        const char* m_name;
    };

    template <typename F>
    std::string in_child(F&& program)
    {
        const int out = memfd_create("argos", 0);
        if (out < 0)
            pbt::discard("memfd_create failed");
        std::cout.flush();
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid < 0)
        {
            close(out);
            pbt::discard("fork failed");
        }
        if (pid == 0)
        {
            std::cout.rdbuf(new FileBuf(out, "\n<stdout>\n"));
            std::cerr.rdbuf(new FileBuf(out, "\n<stderr>\n"));
            auto* own = new std::ostream(new FileBuf(out, "\n<own stream>\n"));
            dup2(out, 1);
            dup2(out, 2);
            try
            {
                program(own);
            }
            catch (const std::exception& e)
            {
                const std::string what = e.what();
                const auto pos = what.find(": ");
                std::cout << "exception " << (pos == std::string::npos ? what : what.substr(pos + 2)) << "\n";
            }
            _exit(251);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        std::string s = "status " + std::to_string(status) + "\n";
        char buffer[4096];
        lseek(out, 0, SEEK_SET);
        for (;;)
        {
            const auto n = read(out, buffer, sizeof(buffer));
            if (n <= 0)
                break;
            s.append(buffer, size_t(n));
        }
        close(out);
        return s;
    }

    /// Whole programs that may be ended by the parser.
    void run_program(pbt::Src& s, pbt::Case& c)
    {
        gen::Cfg cfg;
        cfg.texts = 30;
        cfg.version = 40;
        cfg.junk = 10;
        cfg.special = 30;
        auto p = gen::parser(s, cfg);
        p.line_width = unsigned(s.pick(std::vector<int>{0, 80, 40}));
        p.auto_exit = s.chance(80);
        if (s.chance(30))
            p.exit_codes = {s.range(0, 200), s.range(0, 200)};
        if (s.chance(40))
            p.cmd.name = "UNINITIALIZED";
        const auto finished = model::finish(p);
        auto argv = gen::tokens(s, finished, cfg);
        if (!s.chance(3))
            argv.insert(argv.begin(), s.pick(spec::Strings{"prog", "/usr/bin/tool", "", "./a b", "dir/"}));
        const bool own_stream = s.chance(30);
        check::describe(c, p, argv);
        c.desc << "argv, " << (own_stream ? "own stream" : "standard streams") << "\n";
        c.label("whole programs");
        c.nontrivial = true;
        const auto lib = in_child([&](std::ostream* own) { build::program(p, argv, own_stream ? own : nullptr); });
        const auto ss = in_child([&](std::ostream* own) { ssbuild::program(p, argv, own_stream ? own : nullptr); });
        c.extra_evaluations = 1;
        c.label_if(lib.starts_with("status 64256\n"), "not ended by the parser");
        compare(lib, ss);
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        const auto mode = s.draw(100);
        if (mode < 45)
        {
            run_api(s, c);
            return;
        }
        if (mode < 53)
        {
            run_conversions(s, c);
            return;
        }
        if (mode < 60)
        {
            run_program(s, c);
            return;
        }
        gen::Cfg cfg;
        cfg.texts = 50;
        cfg.callbacks = 40;
        cfg.junk = 15;
        cfg.version = 25;
        auto p = gen::parser(s, cfg);
        p.line_width = unsigned(s.pick(std::vector<int>{80, 40, 20, 3, 200}));
        if (s.chance(30))
            p.split_rules = {s.pick(spec::Strings{"inter nation al ization", "super cali fragilistic expialidocious",
                                                  "lorem+ ipsum", "f ile"})};
        if (s.chance(40))
        {
            for (int i = 0; i < 3; ++i)
                p.cmd.texts[spec::Text(s.draw(10))] = gen::text(s, 8, true);
        }
        if (s.chance(10))
            spoil(s, p);
        const auto finished = model::finish(p);
        auto tokens = gen::tokens(s, finished, cfg);
        for (auto& t : tokens)
        {
            if (s.chance(4))
                t = s.pick(spec::Strings{"insert", "append", "callback error"});
            if (s.chance(12))
                t = s.pick(VALUES);
            else if (s.chance(8) && t.find('=') != std::string::npos)
                t = t.substr(0, t.find('=') + 1) + s.pick(VALUES);
        }
        check::describe(c, p, tokens);
        const auto lib = build::outcome(p, tokens);
        const auto ss = ssbuild::outcome(p, tokens);
        c.extra_evaluations = 1;
        c.nontrivial = lib.size() > 1000;
        c.label_if(lib.starts_with("declaration rejected"), "declaration rejected");
        c.label_if(lib.find("parse=<exception") != std::string::npos, "parse threw");
        compare(lib, ss);
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C20",
        "Random declaration (with texts, callbacks that insert, append or fail, custom help texts, "
        "line widths, 10% invalid declarations) and command line; the transcript of everything "
        "observable (help texts, iteration, parse result, all values in all conversions, views, "
        "messages, exceptions) from the library is compared with that of single_src compiled in "
        "another namespace. In 45% of the cases random API calls (see C19) are repeated with the "
        "other edition and everything they return, throw and write is compared; 8% are values in every "
        "conversion and base, 7% whole programs (mostly with auto-exit) in child processes. "
        "Non-trivial: the transcript is longer than 1000 bytes, or conversions, or programs.",
        22000, 600000, run, {},
        {"single_src/Argos is compiled with -Dargos=argos_ss so that both editions can be linked "
         "into one program"}};
    return p;
}
