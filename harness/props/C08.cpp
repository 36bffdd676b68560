// Typed conversions return the exact value or report an error.
#include <charconv>
#include <cmath>
#include <functional>
#include <limits>
#include <optional>
#include "../check.hpp"
#include "../gen.hpp"

namespace
{
    using namespace spec;
    using pbt::fail;
    using pbt::quote;

    // --- The oracle ---

    struct Integer
    {
        bool negative = false;
        unsigned __int128 magnitude = 0; // saturates at 2^100
        bool lenient = false;            // an error is acceptable too
    };

    bool is_space(char c)
    {
        return c == ' ' || (c >= '\t' && c <= '\r');
    }

    int digit(char c)
    {
        if (c >= '0' && c <= '9')
            return c - '0';
        if (c >= 'a' && c <= 'z')
            return c - 'a' + 10;
        if (c >= 'A' && c <= 'Z')
            return c - 'A' + 10;
        return 99;
    }

    /// The number that the complete text denotes (as described for strtol).
    std::optional<Integer> read_integer(std::string_view s, int base)
    {
        if (base < 0 || base == 1 || base > 36)
            return {};
        Integer r;
        while (!s.empty() && is_space(s[0]))
            s.remove_prefix(1);
        if (!s.empty() && (s[0] == '-' || s[0] == '+'))
        {
            r.negative = s[0] == '-';
            s.remove_prefix(1);
        }
        const char second = s.size() > 2 && s[0] == '0' ? char(s[1] | 32) : 0;
        if ((base == 0 || base == 16) && second == 'x' && digit(s[2]) < 16)
        {
            s.remove_prefix(2);
            base = 16;
        }
        else if ((base == 0 || base == 2) && second == 'b' && digit(s[2]) < 2)
        {
            // Only newer C libraries know this prefix
            r.lenient = true;
            s.remove_prefix(2);
            base = 2;
        }
        if (base == 0)
            base = !s.empty() && s[0] == '0' ? 8 : 10;
        if (s.empty())
            return {};
        for (char c : s)
        {
            const int d = digit(c);
            if (d >= base)
                return {};
            r.magnitude = r.magnitude * unsigned(base) + unsigned(d);
            const auto limit = (unsigned __int128)(1) << 100;
            if (r.magnitude > limit)
                r.magnitude = limit;
        }
        return r;
    }

    template <typename T>
    struct Expected
    {
        std::optional<T> value; // none: an error
        bool lenient = false;   // an error is acceptable too
        bool any = false;       // only the class of the value is given
    };

    template <typename T>
    Expected<T> expected_integer(const std::string& s, int base)
    {
        const auto n = read_integer(s, base);
        if (!n)
            return {};
        using L = std::numeric_limits<T>;
        if (n->negative)
        {
            const auto max = L::is_signed ? (unsigned __int128)(L::max()) + 1 : 0;
            if (n->magnitude > max)
                return {};
            return {T(-(__int128)(n->magnitude)), n->lenient};
        }
        if (n->magnitude > (unsigned __int128)(L::max()))
            return {};
        return {T(n->magnitude), n->lenient};
    }

    template <typename T>
    Expected<T> expected_float(std::string_view s)
    {
        bool lenient = false, negative = false;
        while (!s.empty() && is_space(s[0]))
        {
            s.remove_prefix(1);
            lenient = true;
        }
        if (!s.empty() && (s[0] == '-' || s[0] == '+'))
        {
            negative = s[0] == '-';
            s.remove_prefix(1);
        }
        if (s.empty() || s[0] == '-' || s[0] == '+')
            return {};
        const bool nan = s.size() >= 3 && (s[0] | 32) == 'n' && (s[1] | 32) == 'a'
                         && (s[2] | 32) == 'n';
        if (nan)
        {
            if (s.size() == 3)
                return {std::numeric_limits<T>::quiet_NaN(), lenient};
            // The characters in the parentheses are up to the implementation
            if (s[3] == '(' && s.back() == ')'
                && s.find_first_of("()", 4) == s.size() - 1)
                return {std::numeric_limits<T>::quiet_NaN(), true};
            return {};
        }
        auto format = std::chars_format::general;
        if (s.size() > 2 && s[0] == '0' && (s[1] | 32) == 'x')
        {
            if (s[2] == '-' || s[2] == '+' || (s[2] | 32) == 'i' || (s[2] | 32) == 'n')
                return {};
            s.remove_prefix(2);
            format = std::chars_format::hex;
            lenient = true;
        }
        T value = 0;
        const auto [end, ec] = std::from_chars(s.data(), s.data() + s.size(), value, format);
        if (end != s.data() + s.size() || ec == std::errc::invalid_argument)
            return {};
        if (ec == std::errc::result_out_of_range)
        {
            // Overflow is an error, underflow can be tolerated.
            return {T(0), true, true};
        }
        if (negative)
            value = -value;
        // Denormal numbers have lost precision.
        if (value != 0 && std::fabs(value) < std::numeric_limits<T>::min() * 2)
            return {value, true, true};
        return {value, lenient};
    }

    template <typename T>
    bool agrees(const Expected<T>& e, T actual)
    {
        if (!e.value)
            return false;
        if constexpr (std::is_floating_point_v<T>)
        {
            if (std::isnan(*e.value))
                return std::isnan(actual);
            if (e.any)
                return std::fabs(actual) < std::numeric_limits<T>::min() * 2;
            return actual == *e.value && std::signbit(actual) == std::signbit(*e.value);
        }
        else
        {
            return actual == *e.value;
        }
    }

    // --- Generation ---

    std::string to_text(unsigned __int128 n, int base, bool upper)
    {
        std::string r;
        do
        {
            const int d = int(n % unsigned(base));
            r.insert(r.begin(), char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10));
            n /= unsigned(base);
        } while (n != 0);
        return r;
    }

    std::string decorate(pbt::Src& s, std::string t)
    {
        static const Strings AFTER = {" ", "x", ".", "-", "\t", ",1", "L", "0x", "e", "\xc3\xa9", "G"};
        static const Strings BEFORE = {" ", "  \t", "+", "-", "--", "+-", "- ", "x", "\n", "$", "\v",
                                       "\xc2\xa0"};
        if (s.chance(7))
            t += s.pick(AFTER);
        if (s.chance(3))
            t += std::string(1, '\0') + (s.chance(50) ? "1" : "");
        if (s.chance(3) && !t.empty())
            t.insert(s.draw(t.size()), 1, s.pick(std::vector<char>{' ', '\0', '_', ',', '-', '.'}));
        if (s.chance(12))
            t = s.pick(BEFORE) + t;
        return t;
    }

    std::string integer_text(pbt::Src& s, int base)
    {
        static const Strings ODD = {"", "-", "+", "0x", "0b", "-0", "+0", "00", "0x0", "true", " ",
                                    "0xg", "1e3", "1.0", "08", "09", "-0x1", "0X1f", "zz", "0b1"};
        if (s.chance(8))
            return decorate(s, s.pick(ODD));
        const int b = base >= 2 && base <= 36 ? base
                                              : s.pick(std::vector<int>{10, 16, 8, 2});
        unsigned __int128 n = 0;
        switch (s.draw(4))
        {
        case 0:
            n = s.draw(300);
            break;
        case 1:
        {
            // Around the limits of the types
            static const std::vector<int> BITS = {31, 32, 63, 64, 15, 16, 33, 65, 30, 62};
            n = (unsigned __int128)(1) << s.pick(BITS);
            const auto d = s.draw(7);
            n = d < 4 ? n - (unsigned __int128)(d) : n + (unsigned __int128)(d - 3);
            break;
        }
        case 2:
            n = ((unsigned __int128)(s.draw(1ull << 40)) << 32) >> s.draw(72);
            break;
        default:
            n = ((unsigned __int128)(s.draw(1ull << 50)) << 70) >> s.draw(110);
            break;
        }
        std::string t = to_text(n, b, s.chance(50));
        if (s.chance(10))
            t.insert(0, s.draw(30), '0');
        if ((b == 16 && s.chance(30)) || (base == 0 && b == 16))
            t.insert(0, s.chance(50) ? "0x" : "0X");
        else if (base == 0 && b == 8)
            t.insert(0, "0");
        if (s.chance(35))
            t.insert(0, s.chance(75) ? "-" : "+");
        return decorate(s, t);
    }

    std::string digits(pbt::Src& s, int lo, int hi)
    {
        std::string r;
        for (int n = s.range(lo, hi); n > 0; --n)
            r += char('0' + s.draw(10));
        return r;
    }

    std::string float_text(pbt::Src& s)
    {
        static const Strings ODD = {
            "", "-", ".", "e5", "inf", "-inf", "Infinity", "nan", "NAN", "nan(1)", "infinit", "1e", "1e+",
            "0x", "0x1p3", "0x1.8p-2", "0x.8", "-0", "0.0", "1e-400", "1e-46", "1e39", "1e400", "3.5e38",
            "3.4028234e38", "3.4028236e38", "1.7976931348623157e308", "1.7976931348623159e308",
            "2.2250738585072014e-308", "4.9e-324", "1e99999999999", "1,5", "1.5f", "1d", "--1", "1.2.3",
            "0e999", "1e0x1", "0x1p", "00012", ".5.", "16777217", "9007199254740993", "0.1", "true"};
        if (s.chance(30))
            return decorate(s, s.pick(ODD));
        std::string t = digits(s, 0, s.chance(15) ? 40 : 6);
        if (s.chance(60))
            t += "." + digits(s, 0, s.chance(15) ? 40 : 6);
        if (s.chance(45))
        {
            t += s.chance(80) ? "e" : "E";
            if (s.chance(50))
                t += s.chance(60) ? "-" : "+";
            t += std::to_string(s.draw(s.chance(50) ? 45 : 330));
        }
        if (s.chance(25))
            t.insert(0, "-");
        return decorate(s, t);
    }

    // --- The check ---

    template <typename T>
    struct Accessors
    {
        const char* name;
        T default_value;
        std::function<T(const argos::ArgumentValue&, T, int)> one;
        std::function<std::vector<T>(const argos::ArgumentValues&, std::vector<T>, int)> all;
    };

    template <typename T>
    std::string show(T v)
    {
        std::ostringstream ss;
        ss.precision(20);
        ss << v;
        return ss.str();
    }

    struct Context
    {
        const argos::ParsedArguments& args;
        const Strings& texts;
        std::ostringstream& out;
        int base;
        int values = 0, errors = 0;
    };

    template <typename T>
    void check_type(Context& x, const Accessors<T>& a,
                    const std::function<Expected<T>(const std::string&)>& oracle)
    {
        auto prefix = [&](const std::string& s)
        {
            return std::string(a.name) + " of " + s + ", base " + std::to_string(x.base) + ": ";
        };
        const auto list = x.args.values("--list");
        bool all_good = true, maybe = false;
        std::vector<Expected<T>> expected;
        for (size_t i = 0; i < x.texts.size(); ++i)
        {
            const auto e = oracle(x.texts[i]);
            expected.push_back(e);
            all_good = all_good && e.value;
            maybe = maybe || e.lenient;
            const auto value = list.value(i);
            if (value.as_string() != x.texts[i] || value.value() != x.texts[i])
                fail("the text was changed: " + quote(x.texts[i]));
            x.out.str({});
            try
            {
                const T actual = a.one(value, a.default_value, x.base);
                if (!agrees(e, actual))
                    fail(prefix(quote(x.texts[i])) + "expected "
                         + (e.value ? show(*e.value) : "an error") + ", got " + show(actual));
                if (!x.out.str().empty())
                    fail(prefix(quote(x.texts[i])) + "a value, but also an error message");
                x.values++;
            }
            catch (const argos::ArgosException&)
            {
                if (e.value && !e.lenient)
                    fail(prefix(quote(x.texts[i])) + "expected " + show(*e.value)
                         + ", got an error");
                if (x.out.str().empty())
                    fail(prefix(quote(x.texts[i])) + "an exception, but no message");
                x.errors++;
            }
        }
        // Lists
        x.out.str({});
        try
        {
            const auto actual = a.all(list, {a.default_value}, x.base);
            if (x.texts.empty())
            {
                if (actual != std::vector<T>{a.default_value})
                    fail(prefix("an empty list") + "the default wasn't returned");
            }
            else
            {
                if (actual.size() != x.texts.size())
                    fail(prefix(pbt::quote_all(x.texts)) + "expected "
                         + (all_good ? "all elements" : "an error") + ", got "
                         + std::to_string(actual.size()) + " elements");
                for (size_t i = 0; i < actual.size(); ++i)
                {
                    if (!agrees(expected[i], actual[i]))
                        fail(prefix(pbt::quote_all(x.texts)) + "element "
                             + std::to_string(i) + ": expected "
                             + (expected[i].value ? show(*expected[i].value) : "an error")
                             + ", got " + show(actual[i]));
                }
            }
        }
        catch (const argos::ArgosException&)
        {
            if (all_good && !maybe)
                fail(prefix(pbt::quote_all(x.texts)) + "expected a list, got an error");
            if (x.out.str().empty())
                fail(prefix(pbt::quote_all(x.texts)) + "an exception, but no message");
        }
        // The scalar option has the last text; the other one isn't given.
        if (!x.texts.empty())
        {
            const auto e = oracle(x.texts.back());
            try
            {
                const T actual = a.one(x.args.value("--last"), a.default_value, x.base);
                if (!agrees(e, actual))
                    fail(prefix(quote(x.texts.back())) + "(scalar option) expected "
                         + (e.value ? show(*e.value) : "an error") + ", got " + show(actual));
            }
            catch (const argos::ArgosException&)
            {
                if (e.value && !e.lenient)
                    fail(prefix(quote(x.texts.back())) + "(scalar option) expected "
                         + show(*e.value) + ", got an error");
            }
        }
        x.out.str({});
        if (a.one(x.args.value("--none"), a.default_value, x.base) != a.default_value
            || a.all(x.args.values("--none"), {a.default_value, T(3)}, x.base)
               != std::vector<T>{a.default_value, T(3)}
            || !a.all(x.args.values("--none"), {}, x.base).empty())
            fail(std::string(a.name) + " of a value that wasn't given isn't the default");
        if (!x.out.str().empty())
            fail(std::string(a.name) + ": a message for a value that wasn't given");
    }

    void run(pbt::Src& s, pbt::Case& c)
    {
        const bool floats = s.chance(35);
        int base = 10;
        if (!floats && s.chance(60))
        {
            base = s.chance(50) ? s.pick(std::vector<int>{16, 8, 2, 0, 36})
                                : s.pick(std::vector<int>{3, 5, 7, 11, 15, 17, 20, 32, 35, 1, 37, -1,
                                                          100, 2147483647, -2147483647});
        }
        Strings texts;
        const int n = s.count(4, 60);
        for (int i = 0; i < n; ++i)
            texts.push_back(floats ? float_text(s) : integer_text(s, base));
        c.desc << "texts: " << pbt::quote_all(texts) << ", base " << base << "\n";

        std::ostringstream out;
        argos::ArgumentParser parser("prog", false);
        parser.auto_exit(false).stream(&out);
        parser.add(argos::Option("--list").argument("N").operation(argos::OptionOperation::APPEND));
        parser.add(argos::Option("--last").argument("N"));
        parser.add(argos::Option("--none").argument("N").operation(argos::OptionOperation::APPEND));
        Strings tokens;
        for (auto& t : texts)
        {
            if (s.chance(50))
            {
                tokens.emplace_back("--list");
                tokens.push_back(t);
            }
            else
            {
                tokens.push_back("--list=" + t);
            }
            tokens.emplace_back("--last");
            tokens.push_back(t);
        }
        const auto args = parser.parse(build::views(tokens));
        if (args.result_code() != argos::ParserResultCode::SUCCESS)
            fail("parsing failed: " + out.str());
        Context x{args, texts, out, base};
        if (floats)
        {
            check_type<float>(
                x, {"float", 2.5f,
                    [](auto& v, float d, int) { return v.as_float(d); },
                    [](auto& v, auto d, int) { return v.as_floats(d); }},
                [](auto& t) { return expected_float<float>(t); });
            check_type<double>(
                x, {"double", -7.25,
                    [](auto& v, double d, int) { return v.as_double(d); },
                    [](auto& v, auto d, int) { return v.as_doubles(d); }},
                [](auto& t) { return expected_float<double>(t); });
            c.label("floating point");
        }
        else
        {
#define CHECK_INT(T, one_, all_, def_) \
            check_type<T>( \
                x, {#T, static_cast<T>(def_), \
                    [](auto& v, T d, int b) { return v.one_(d, b); }, \
                    [](auto& v, auto d, int b) { return v.all_(d, b); }}, \
                [base](auto& t) { return expected_integer<T>(t, base); })
            CHECK_INT(int, as_int, as_ints, -17);
            CHECK_INT(unsigned, as_uint, as_uints, 4000000000u);
            CHECK_INT(long, as_long, as_longs, -5000000000);
            CHECK_INT(unsigned long, as_ulong, as_ulongs, 12345678901234567890u);
            CHECK_INT(long long, as_llong, as_llongs, -6000000000);
            CHECK_INT(unsigned long long, as_ullong, as_ullongs, 12345678901234567891u);
#undef CHECK_INT
            c.label("base " + std::string(base == 10 ? "10" : base < 0 || base == 1 || base > 36
                                                                  ? "invalid" : "other"));
        }
        for (size_t i = 0; i < texts.size(); ++i)
        {
            const bool b = args.values("--list").value(i).as_bool();
            if (!texts[i].empty() && b != (texts[i] != "0" && texts[i] != "false"))
                fail("as_bool of " + quote(texts[i]) + " is " + (b ? "true" : "false"));
        }
        if (args.value("--none").as_bool() || !args.value("--none").as_bool(true)
            || args.value("--none").as_string("dflt") != "dflt"
            || args.values("--none").as_strings({"a", "b"}) != Strings{"a", "b"}
            || args.values("--list").as_strings({"dd"}) != (texts.empty() ? Strings{"dd"} : texts))
            fail("as_bool, as_string or as_strings is wrong");
        c.extra_evaluations = uint64_t(x.values + x.errors);
        c.label_if(x.values > 0, "some conversion succeeded");
        c.label_if(x.errors > 0, "some conversion failed");
        c.label_if(x.values > 0 && x.errors > 0, "succeeds for some types or elements only");
        c.nontrivial = !texts.empty();
    }
}

const pbt::Property& pbt::the_property()
{
    static const Property p{
        "C08",
        "Random number texts (around the limits of the types, with signs, prefixes, leading zeros, "
        "white space, junk and NUL bytes) read as all integer types in bases 0, 2-36 and invalid "
        "ones, or as float and double, through the scalar and the list accessors; compared with "
        "128-bit arithmetic and std::from_chars. Non-trivial: at least one text.",
        180000, 2500000, run, {},
        {"A leading '0b' in bases 0 and 2, 'nan(...)', and for floating-point types leading white "
         "space, hexadecimal notation and underflow may be accepted or be errors, but never give "
         "another value."}};
    return p;
}
