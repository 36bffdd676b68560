#include "check.hpp"

namespace check
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;
    using pbt::quote_all;

    Run run(const Parser& p, const Parser& finished, const Strings& tokens,
            const build::HooksPtr& hooks)
    {
        Run r;
        std::ostringstream ss;
        try
        {
            auto parser = build::make_parser(p, &ss, hooks);
            const auto args = parser.parse(build::views(tokens));
            r.node = build::observe(args, finished.cmd, finished.ci);
        }
        catch (const argos::ArgosException& e)
        {
            r.exception = e.what();
        }
        r.output = ss.str();
        return r;
    }

    std::string diff(const Node& e, const Node& a, const std::string& path)
    {
        const auto where = path + "/" + e.name + ": ";
        if (e.name != a.name)
            return path + ": expected command " + quote(e.name) + ", got " + quote(a.name);
        if (e.code != a.code)
            return where + "expected result code " + to_string(e.code) + ", got " + to_string(a.code);
        if (e.stop_flags != a.stop_flags)
            return where + "expected stop option "
                   + (e.stop_flags ? quote_all(*e.stop_flags) : "none") + ", got "
                   + (a.stop_flags ? quote_all(*a.stop_flags) : "none");
        for (auto& [k, v] : e.values)
        {
            auto it = a.values.find(k);
            if (it == a.values.end())
                return where + "no value " + quote(k);
            if (it->second != v)
                return where + "expected " + quote(k) + " = " + quote_all(v) + ", got "
                       + quote_all(it->second);
        }
        if (a.values.size() != e.values.size())
            return where + "different value names";
        for (auto& [k, v] : e.sources)
        {
            auto it = a.sources.find(k);
            if (it == a.sources.end() || it->second != v)
                return where + "expected the source of " + quote(k) + " to be " + quote_all(v)
                       + ", got " + (it == a.sources.end() ? "none" : quote_all(it->second));
        }
        if (e.unprocessed != a.unprocessed)
            return where + "expected unprocessed " + quote_all(e.unprocessed) + ", got "
                   + quote_all(a.unprocessed);
        if (e.subs.size() != a.subs.size())
            return where + "expected " + std::to_string(e.subs.size())
                   + " sub-commands, got " + std::to_string(a.subs.size());
        for (size_t i = 0; i < e.subs.size(); ++i)
        {
            auto d = diff(e.subs[i], a.subs[i], path + "/" + e.name);
            if (!d.empty())
                return d;
        }
        return {};
    }

    std::string diff_codes(const Node& e, const Node& a, const std::string& path)
    {
        const auto where = path + "/" + e.name + ": ";
        if (e.name != a.name)
            return path + ": expected command " + quote(e.name) + ", got " + quote(a.name);
        if (e.code != a.code)
            return where + "expected result code " + to_string(e.code) + ", got " + to_string(a.code);
        if (e.subs.size() != a.subs.size())
            return where + "expected " + std::to_string(e.subs.size())
                   + " sub-commands, got " + std::to_string(a.subs.size());
        for (size_t i = 0; i < e.subs.size(); ++i)
        {
            auto d = diff_codes(e.subs[i], a.subs[i], path + "/" + e.name);
            if (!d.empty())
                return d;
        }
        return {};
    }

    bool has_space(const Strings& tokens)
    {
        for (auto& t : tokens)
        {
            if (t.find_first_of(" \t\n\r") != std::string::npos)
                return true;
        }
        return false;
    }

    void compare(const model::Parsed& m, const Run& r, const Strings& tokens)
    {
        if (m.unspecified)
            pbt::discard("unspecified: " + m.why);
        if (r.exception)
            fail("parsing threw an exception: " + *r.exception);
        const auto expected = m.node();
        const auto context = "\n--- expected ---\n"
                             + (m.failed ? "error: " + m.error + "\n" : std::string())
                             + describe(expected) + "--- actual ---\n"
                             + describe(r.node) + "--- output ---\n" + r.output;
        if (m.failed)
        {
            auto d = diff_codes(expected, r.node);
            if (!d.empty())
                fail(d + context);
            if (r.output.empty())
                fail("parsing failed, but nothing was written" + context);
            if (!has_space(tokens) && m.error.find_first_of("\t\r\n") == std::string::npos
                && m.error.find("  ") == std::string::npos && m.error.find("\" \"") == std::string::npos)
            {
                auto start = m.error_cmd + ": " + m.error;
                while (start.back() == ' ')
                    start.pop_back();
                start += "\n";
                if (r.output.compare(0, start.size(), start) != 0)
                    fail("expected the error message " + quote(start) + context);
            }
            return;
        }
        auto d = diff(expected, r.node);
        if (!d.empty())
            fail(d + context);
        if (!m.help_written && !m.version_written && !r.output.empty())
            fail("unexpected output" + context);
        if ((m.help_written || m.version_written) && r.output.empty())
            fail("no help or version was written" + context);
    }

    void describe(pbt::Case& c, const Parser& p, const Strings& tokens)
    {
        c.desc << spec::describe(p) << "command line: " << quote_all(tokens) << "\n";
        c.publish();
    }

    model::Parsed model_check(const Parser& p, const Strings& tokens, pbt::Case& c)
    {
        describe(c, p, tokens);
        const auto finished = model::finish(p);
        auto m = model::parse(finished, tokens);
        if (m.unspecified)
            pbt::discard("unspecified: " + m.why);
        compare(m, run(p, finished, tokens), tokens);
        label(c, m);
        return m;
    }

    void label(pbt::Case& c, const model::Parsed& m)
    {
        if (m.failed)
        {
            auto kind = m.error.substr(0, m.error.find_first_of(":.\""));
            if (m.error.ends_with("no value given."))
                kind = "no value given";
            c.label("failed: " + kind);
        }
        c.label_if(!m.failed && !m.used_stop, "succeeded");
        c.label_if(m.used_stop, "stopped");
        c.label_if(m.used_last_argument, "last-argument option");
        c.label_if(m.used_last_option, "last-option option");
        c.label_if(m.commands > 1, "sub-commands");
        c.label_if(m.siblings > 0, "sibling commands");
        c.label_if(m.clusters > 0, "concatenated flags or value");
        c.label_if(m.equals > 0, "--flag=value");
        c.label_if(m.abbreviated > 0, "abbreviated flag");
        c.label_if(m.surplus, "surplus arguments");
        c.label_if(m.unknown_tokens > 0, "undefined tokens");
    }
}
