// Splitting values is lossless and honours the part limits.
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;
    using pbt::quote_all;

    /// At most max parts (0: no limit); the last one keeps its separators.
    Strings naive_split(const std::string& s, char sep, size_t max)
    {
        Strings r{""};
        for (char c : s)
        {
            if (c == sep && (max == 0 || r.size() < max))
                r.emplace_back();
            else
                r.back() += c;
        }
        return r;
    }

    std::string join(const Strings& parts, char sep)
    {
        std::string r;
        for (size_t i = 0; i < parts.size(); ++i)
            r += (i ? std::string(1, sep) : std::string()) + parts[i];
        return r;
    }

    std::string text(pbt::Src& s, char sep)
    {
        static const Strings PIECES = {"", "a", "bc", "1", "-x", "=", "\xc3\xa9", " ", "long piece",
                                       "0", ","};
        std::string t;
        for (int n = s.count(8, 70); n > 0; --n)
        {
            if (s.chance(55))
                t += sep;
            else
                t += s.pick(PIECES);
        }
        if (s.chance(3))
            t += std::string("\0z", 2);
        return t;
    }

    /// All accessors of a list must agree with each other.
    void check_list(const argos::ArgumentValues& v, const Strings& expected,
                    const Strings& sources, const std::string& what, std::ostringstream& out)
    {
        auto bad = [&](const std::string& how, const auto& actual)
        {
            fail(what + ": " + how + " gives " + quote_all(actual) + ", expected "
                 + quote_all(expected));
        };
        if (v.size() != expected.size() || v.empty() != expected.empty()
            || bool(v) == expected.empty())
            fail(what + ": size() is " + std::to_string(v.size()) + ", expected "
                 + quote_all(expected));
        const auto raw = v.raw_values();
        if (Strings(raw.begin(), raw.end()) != expected)
            bad("raw_values()", raw);
        if (expected.empty() ? v.as_strings({"d"}) != Strings{"d"} : v.as_strings({"d"}) != expected)
            bad("as_strings()", v.as_strings({"d"}));
        Strings values, iterated, indexed, its, postfix;
        for (auto& x : v.values())
        {
            values.push_back(x.as_string("?"));
            its.push_back(build::view_name(x.argument().get()));
        }
        for (const auto& x : v)
            iterated.push_back(x.as_string("?"));
        for (auto it = v.begin(); it != v.end();)
        {
            auto old = it++;
            postfix.push_back((*old).as_string("?"));
            if (it == old)
                fail(what + ": the iterator did not move");
        }
        for (size_t i = 0; i < v.size(); ++i)
        {
            const auto a = v.value(i), b = v[i];
            if (a.value() != b.value() || !a || !b)
                fail(what + ": value(i) and [i] differ");
            indexed.push_back(a.as_string("?"));
            if (build::view_name(a.argument().get()) != its[i])
                fail(what + ": value(i) and values()[i] have different sources");
        }
        if (values != expected)
            bad("values()", values);
        if (iterated != expected)
            bad("iteration", iterated);
        if (postfix != expected)
            bad("iteration with it++", postfix);
        if (indexed != expected)
            bad("value(i)", indexed);
        if (its != sources)
            fail(what + ": the sources are " + quote_all(its) + ", expected " + quote_all(sources));
        // Out of range
        const auto size = expected.size();
        for (size_t i : {size, size + 1, SIZE_MAX})
        {
            out.str({});
            try
            {
                const auto x = v.value(i);
                if (size != 0)
                    fail(what + ": value(" + std::to_string(i) + ") isn't an error");
                if (x || x.value())
                    fail(what + ": value(i) of an empty list has a value");
            }
            catch (const argos::ArgosException&)
            {
                if (size == 0)
                    fail(what + ": value(i) of an empty list is an error");
                if (out.str().empty())
                    fail(what + ": no error message");
            }
        }
        out.str({});
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        const char sep = s.chance(90) ? s.pick(std::vector<char>{',', ':', ' ', '=', ';', '-', '/'})
                                      : char(s.draw(256));
        Strings texts, sources;
        for (int n = s.count(5, 65); n > 0; --n)
        {
            texts.push_back(text(s, sep));
            sources.push_back(s.chance(50) ? "--list" : "--same");
        }
        const size_t max = s.chance(30) ? 0 : s.draw(7);
        const size_t min = s.chance(30) ? 0 : max == 0 ? s.draw(7) : s.draw(max + 1);
        const bool exactly = max > 0 && s.chance(30);
        c.desc << "texts " << quote_all(texts) << " separator " << quote(std::string(1, sep))
               << " min " << min << " max " << max << (exactly ? " split_n(max)" : "") << "\n";

        std::ostringstream out;
        argos::ArgumentParser parser("prog", false);
        parser.auto_exit(false).stream(&out);
        parser.add(argos::Option("--list").argument("N").operation(argos::OptionOperation::APPEND));
        parser.add(argos::Option("--same").argument("N").alias("--list")
                       .operation(argos::OptionOperation::APPEND));
        parser.add(argos::Option("--none").argument("N"));
        parser.add(argos::Argument("A").optional());
        Strings tokens;
        for (size_t i = 0; i < texts.size(); ++i)
        {
            tokens.push_back(sources[i]);
            tokens.push_back(texts[i]);
        }
        const auto args = parser.parse(build::views(tokens));
        if (args.result_code() != argos::ParserResultCode::SUCCESS)
            fail("parsing failed: " + out.str());
        const auto list = args.values("--list");
        check_list(list, texts, sources, "the list", out);
        check_list(args.values("--none"), {}, {}, "a value that wasn't given", out);

        const size_t lo = exactly ? max : min;
        Strings all, all_sources;
        bool all_good = true;
        int errors = 0, capped = 0;
        for (size_t i = 0; i < texts.size(); ++i)
        {
            const auto parts = naive_split(texts[i], sep, max);
            const bool good = parts.size() >= lo;
            all_good = all_good && good;
            all.insert(all.end(), parts.begin(), parts.end());
            all_sources.insert(all_sources.end(), parts.size(), sources[i]);
            capped += max && parts.size() == max && parts.back().find(sep) != std::string::npos;
            const auto what = "split of " + quote(texts[i]);
            out.str({});
            try
            {
                const auto value = list.value(i);
                const auto v = exactly ? value.split_n(sep, max) : value.split(sep, min, max);
                if (!good)
                    fail(what + ": expected an error, got " + quote_all(v.raw_values()));
                if (!out.str().empty())
                    fail(what + ": an unexpected message: " + out.str());
                check_list(v, parts, Strings(parts.size(), sources[i]), what, out);
                if (join(v.as_strings(), sep) != texts[i])
                    fail(what + ": the parts don't make up the text: " + quote_all(v.raw_values()));
            }
            catch (const argos::ArgosException&)
            {
                if (good)
                    fail(what + ": an unexpected error: " + out.str());
                if (out.str().empty())
                    fail(what + ": no error message");
                errors++;
            }
        }
        out.str({});
        try
        {
            const auto v = exactly ? list.split_n(sep, max) : list.split(sep, min, max);
            if (!all_good)
                fail("split of the list: expected an error, got " + quote_all(v.raw_values()));
            check_list(v, all, all_sources, "split of the list", out);
            // Splitting again by another character
            const auto w = v.split('a');
            Strings again, again_sources;
            for (size_t i = 0; i < all.size(); ++i)
            {
                for (auto& part : naive_split(all[i], 'a', 0))
                {
                    again.push_back(part);
                    again_sources.push_back(all_sources[i]);
                }
            }
            check_list(w, again, again_sources, "second split of the list", out);
        }
        catch (const argos::ArgosException&)
        {
            if (all_good)
                fail("split of the list: an unexpected error: " + out.str());
            if (out.str().empty())
                fail("split of the list: no error message");
        }
        c.extra_evaluations = texts.size();
        c.label_if(errors > 0, "too few parts");
        c.label_if(capped > 0, "the last part keeps separators");
        c.label_if(exactly, "split_n");
        c.label_if(all.size() > texts.size(), "something was split");
        c.nontrivial = all.size() > texts.size() || errors > 0;
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C09",
        "Random lists of texts with many separators (any byte), random part limits; split, split_n "
        "and all accessors of the lists are compared with a naive character-by-character split and "
        "with each other. Non-trivial: something was split, or there were too few parts.",
        500000, 3000000, run};
    return p;
}
