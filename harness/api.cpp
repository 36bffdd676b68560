// Arbitrary use of the public API with arbitrary strings. Compiled for both
// editions of the library.
#include "api.hpp"
#include <cstring>
#include <iostream>
#include <memory>
#include <optional>
#include <set>
#include <Argos/Argos.hpp>

namespace BUILD_NS
{
    namespace
    {
        using namespace argos;
        using Strings = std::vector<std::string>;

        /// Where everything that is seen ends up.
        struct Seen
        {
            std::string* log = nullptr;
            size_t sum = 0;

            void put(char kind, std::string_view t)
            {
                for (const char ch : t)
                    sum += uint8_t(ch);
                if (log && log->size() < 4000000)
                {
                    log->push_back(kind);
                    log->append(t);
                }
            }
        };

        /// What the library writes.
        struct Sink : std::streambuf
        {
            Seen& seen;

            explicit Sink(Seen& seen) : seen(seen) {}

            int overflow(int c) override
            {
                if (c == EOF)
                    return 0;
                const char ch = char(c);
                seen.put('>', {&ch, 1});
                return c;
            }

            std::streamsize xsputn(const char* s, std::streamsize n) override
            {
                seen.put('>', {s, size_t(n)});
                return n;
            }
        };

        class Fuzz
        {
        public:
            Fuzz(pbt::Src& s, pbt::Case& c, std::string* log) : s(s), c(c), seen{log}, sink(seen), own(&sink) {}

            void run();

        private:
            pbt::Src& s;
            pbt::Case& c;
            Seen seen;
            Sink sink;
            std::ostream own;
            bool wild = false;
            OptionStyle style = OptionStyle::STANDARD;
            Strings pool; // strings used so far
            Strings flags, names;
            std::set<std::string> used; // names of well-formed declarations are not repeated
            int insertions = 0;
            uint64_t calls = 0, exceptions = 0, parsed = 0, accepted = 0;

            // ---- Strings

            char pick_char(std::string_view t) { return t[s.draw(t.size())]; }

            std::string bytes()
            {
                static const Strings PIECES = {
                    "a", "-", "--", "=", " ", "\n", "\t", "\r", "/", "\xc3\xa6", "\xe6\x97\xa5", "\xf0\x9f\x98\x80",
                    "\xc3", "\x80", "\xff", "word", ",", ".", "<", ">", "[", "]", "+", "\"", "\\", "0", "1", "*", "1.",
                    "internationalization", "1e5", "0x1f", "  ", "Z", "%s", "\v", "\f", "\x1b[1m"};
                std::string r;
                for (int n = s.count(8, 65); n > 0; --n)
                {
                    const auto k = s.draw(20);
                    if (k < 16)
                        r += s.pick(PIECES);
                    else if (k < 18)
                        r += char(s.draw(256));
                    else if (k == 18 && s.chance(30))
                        r += std::string(size_t(s.range(1, 400)), s.chance(80) ? 'x' : ' ');
                    else
                        r += '\0';
                }
                return r;
            }

            std::string text()
            {
                if (!pool.empty() && s.chance(20))
                    return s.pick(pool);
                auto r = bytes();
                if (s.chance(30))
                {
                    for (int n = s.range(1, 12); n > 0; --n)
                        r += (s.chance(80) ? " " : "\n") + bytes();
                }
                return keep(r);
            }

            const std::string& keep(std::string t)
            {
                pool.push_back(std::move(t));
                return pool.back();
            }

            std::string unique(Strings& list, std::string t)
            {
                if (!wild)
                {
                    auto key = t;
                    for (auto& ch : key)
                        ch = char(tolower(uint8_t(ch)));
                    for (int i = 2; !used.insert(key).second; ++i)
                    {
                        const auto suffix = t.size() == 2 ? std::string(1, char('a' + (i - 2) % 26)) : std::to_string(i);
                        t = t.size() == 2 && i < 28 ? t.substr(0, 1) + suffix : t + suffix;
                        key = t;
                        for (auto& ch : key)
                            ch = char(tolower(uint8_t(ch)));
                    }
                }
                list.push_back(t);
                return t;
            }

            std::string name() { return unique(names, any_name()); }
            std::string flag() { return unique(flags, any_flag()); }

            std::string any_name()
            {
                static const Strings NAMES = {"FILE", "DIR", "N", "add", "del", "x"};
                if (wild && s.chance(40))
                    return text();
                if (s.chance(15))
                    return keep("n" + bytes());
                return keep(s.pick(NAMES));
            }

            std::string any_flag()
            {
                static const Strings NAMES = {"file", "out", "f", "a", "b", "verbose", "output", "F", "no", "?", "-"};
                if (wild && s.chance(30))
                    return text();
                std::string r;
                if (style == OptionStyle::STANDARD)
                {
                    if (s.chance(50))
                        return keep(s.chance(90) ? std::string("-") + pick_char("abcfFxyz019?") : "--");
                    r = "--" + s.pick(NAMES);
                }
                else
                {
                    r = (style == OptionStyle::SLASH ? "/" : "-") + s.pick(NAMES);
                }
                if (s.chance(10))
                {
                    for (const char ch : bytes())
                    {
                        if (uint8_t(ch) > ' ' && ch != '=')
                            r += ch;
                    }
                }
                return keep(r);
            }

            std::string token()
            {
                const auto k = s.draw(14);
                if (k >= 10 && !(k < 13 ? flags : names).empty())
                {
                    auto t = s.pick(k < 13 ? flags : names);
                    if (s.chance(15))
                        t += "=" + bytes();
                    return t;
                }
                if (k < 5 && !pool.empty())
                {
                    auto t = s.pick(pool);
                    const auto m = s.draw(8);
                    if (m == 1)
                        t += "=" + bytes();
                    else if (m == 2 && !t.empty())
                        t.pop_back();
                    else if (m == 3)
                        t += bytes();
                    return t;
                }
                if (k < 7)
                    return any_flag();
                return k == 7 ? s.pick(Strings{"1", "-1", "--help", "-h", "--", "add", "del", "-abf"}) : bytes();
            }

            Strings tokens()
            {
                Strings r;
                for (int n = s.count(12, 80); n > 0; --n)
                    r.push_back(token());
                return r;
            }

            // ---- Calls

            void note(std::string_view what, std::string_view arg = {})
            {
                if (c.desc.tellp() > 6000)
                    return;
                if (c.desc.tellp() > 0)
                    c.desc << "; ";
                c.desc << what;
                if (arg.data())
                    c.desc << " " << pbt::quote(arg);
            }

            /// Only ArgosException may leave the library.
            template <typename F>
            bool call(F&& f)
            {
                ++calls;
                try
                {
                    f();
                    return true;
                }
                catch (const ArgosException& e)
                {
                    ++exceptions;
                    // The file name and line number differ.
                    const std::string_view msg = e.what();
                    const auto pos = msg.find(": ");
                    seen.put('!', pos == std::string::npos ? msg : msg.substr(pos + 2));
                    return false;
                }
            }

            void look(std::string_view t) { seen.put('"', t); }

            template <typename T>
            void see(T n)
            {
                if constexpr (std::is_floating_point_v<T>)
                {
                    char buf[64];
                    snprintf(buf, sizeof buf, "%.17g", double(n));
                    seen.put('#', buf);
                }
                else if constexpr (std::is_enum_v<T>)
                    seen.put('#', std::to_string(static_cast<long long>(n)));
                else
                    seen.put('#', std::to_string(n));
            }

            template <typename T>
            void see_all(const std::vector<T>& v)
            {
                seen.put('[', {});
                for (auto& n : v)
                    see(n);
                seen.put(']', {});
            }

            void look(const std::vector<std::string_view>& v)
            {
                for (auto& t : v)
                    look(t);
            }

            void look(const IArgumentView* v)
            {
                if (!v)
                    return;
                call([&] { look(v->help()); });
                call([&] { look(v->section()); });
                call([&] { look(v->alias()); });
                call([&] { see(v->id());
                             see(v->visibility());
                             see(v->value_id());
                             see(v->argument_id()); });
                if (auto a = dynamic_cast<const ArgumentView*>(v))
                {
                    look(a->name());
                    see(a->optional());
                    see(a->count().first);
                    see(a->count().second);
                }
                else if (auto o = dynamic_cast<const OptionView*>(v))
                {
                    for (auto& f : o->flags())
                        look(f);
                    look(o->argument());
                    look(o->constant());
                    look(o->initial_value());
                    see(o->operation());
                    see(o->type());
                    see(o->optional());
                }
                else if (auto cv = dynamic_cast<const CommandView*>(v))
                {
                    look(cv->name());
                    for (auto& x : cv->arguments())
                        look(&x);
                    for (auto& x : cv->options())
                        look(&x);
                    for (auto& x : cv->subcommands())
                        look(&x);
                    see(cv->require_subcommand());
                }
            }

            size_t any_size() { return s.pick(std::vector<size_t>{0, 1, 2, 3, 7, 1000000, SIZE_MAX - 1, SIZE_MAX}); }
            int any_base() { return s.pick(std::vector<int>{10, 0, 2, 8, 16, 36, 1, 37, -1}); }
            char any_char() { return s.chance(50) ? pick_char("=,- a") : char(s.draw(256)); }

            void use(const ArgumentValue& v)
            {
                ArgumentValue copy(v);
                for (int n = s.range(1, 4); n > 0; --n)
                {
                    const auto b = any_base();
                    switch (s.draw(16))
                    {
                    case 0: call([&] { see(v.as_int(1, b)); }); break;
                    case 1: call([&] { see(v.as_uint(1, b)); }); break;
                    case 2: call([&] { see(v.as_long(1, b)); }); break;
                    case 3: call([&] { see(v.as_ulong(1, b)); }); break;
                    case 4: call([&] { see(v.as_llong(1, b)); }); break;
                    case 5: call([&] { see(v.as_ullong(1, b)); }); break;
                    case 6: call([&] { see(v.as_double(1)); }); break;
                    case 7: call([&] { see(v.as_float(1)); }); break;
                    case 8: call([&] { see(v.as_bool(true)); }); break;
                    case 9: call([&] { look(v.as_string("d")); }); break;
                    case 10: call([&] { if (v.value()) look(*v.value()); }); break;
                    case 11: call([&] { look(v.argument().get()); }); break;
                    case 12: call([&] { use(v.split(any_char(), any_size(), any_size())); }); break;
                    case 13: call([&] { use(v.split_n(any_char(), any_size())); }); break;
                    case 14: call([&] { v.error(text()); }); break;
                    default: call([&] { v.error(); }); break;
                    }
                }
                ArgumentValue other(std::move(copy));
                if (s.chance(20))
                {
                    call([&] { if (copy.value()) look(*copy.value()); });
                    call([&] { see(copy.as_int()); });
                    call([&] { look(copy.argument().get()); });
                    call([&] { copy.error("x"); });
                }
                copy = other;
                call([&] { if (copy.value()) look(*copy.value()); });
            }

            int depth = 0;

            void use(const ArgumentValues& v)
            {
                if (++depth > 4)
                {
                    --depth;
                    return;
                }
                ArgumentValues copy(v);
                for (int n = s.range(1, 4); n > 0; --n)
                {
                    const auto b = any_base();
                    switch (s.draw(18))
                    {
                    case 0: call([&] { see_all(v.as_ints({}, b)); }); break;
                    case 1: call([&] { see_all(v.as_uints({}, b)); }); break;
                    case 2: call([&] { see_all(v.as_longs({}, b)); }); break;
                    case 3: call([&] { see_all(v.as_ulongs({}, b)); }); break;
                    case 4: call([&] { see_all(v.as_llongs({}, b)); }); break;
                    case 5: call([&] { see_all(v.as_ullongs({}, b)); }); break;
                    case 6: call([&] { see_all(v.as_floats()); }); break;
                    case 7: call([&] { see_all(v.as_doubles()); }); break;
                    case 8: call([&] { for (auto& x : v.as_strings()) look(x); }); break;
                    case 9: call([&] { look(v.raw_values()); }); break;
                    case 10: call([&] { for (auto& x : v.arguments()) look(x.get()); }); break;
                    case 11: call([&] { use(v.value(any_size())); }); break;
                    case 12: call([&] { use(v[any_size()]); }); break;
                    case 13: call([&] { for (auto x : v) use(x); }); break;
                    case 14: call([&] { for (auto& x : v.values()) use(x); }); break;
                    case 15: call([&] { use(v.split(any_char(), any_size(), any_size())); }); break;
                    case 16: call([&] { use(v.split_n(any_char(), any_size())); }); break;
                    default: call([&] { v.error(text()); }); break;
                    }
                }
                ArgumentValues other(std::move(copy));
                if (s.chance(20))
                {
                    call([&] { look(copy.raw_values()); });
                    call([&] { see(copy.size()); see(copy.empty()); });
                    call([&] { for (auto x : copy) use(x); });
                    call([&] { see(copy.as_ints().size()); });
                    call([&] { see(copy.arguments().size()); });
                }
                copy = std::move(other);
                --depth;
            }

            void use(const ParsedArguments& r)
            {
                if (++depth > 4)
                {
                    --depth;
                    return;
                }
                call([&] { look(r.name()); });
                call([&] { see(r.result_code()); });
                for (int n = s.range(1, 6); n > 0; --n)
                {
                    switch (s.draw(15))
                    {
                    case 0: call([&] { auto v = r.command(); look(&v); }); break;
                    case 1: call([&] { see(r.has(token())); }); break;
                    case 2: call([&] { use(r.value(token())); }); break;
                    case 3: call([&] { use(r.values(token())); }); break;
                    case 4:
                        call([&]
                        {
                            for (auto& a : r.all_arguments())
                            {
                                see(r.has(*a));
                                call([&] { use(r.values(*a)); });
                                call([&] { use(r.value(*a)); });
                            }
                        });
                        break;
                    case 5:
                    case 6:
                        call([&]
                        {
                            for (auto& o : r.all_options())
                            {
                                see(r.has(*o));
                                call([&] { use(r.values(*o)); });
                                call([&] { use(r.value(*o)); });
                                call([&] { use(r.values(o->flags().front())); });
                            }
                        });
                        break;
                    case 7: call([&] { for (auto& v : r.all_subcommands()) look(v.get()); }); break;
                    case 8: call([&] { auto o = r.stop_option(); look(&o); }); break;
                    case 9: call([&] { for (auto& t : r.unprocessed_arguments()) look(t); }); break;
                    case 10:
                    case 11:
                        call([&]
                        {
                            for (auto& sub : r.subcommands())
                                use(sub);
                        });
                        break;
                    case 12: call([&] { r.error(text()); }); break;
                    case 13: call([&] { print(r, own); }); break;
                    default:
                        call([&]
                        {
                            Strings storage = tokens();
                            storage.insert(storage.begin(), "prog");
                            if (s.chance(70))
                            {
                                const auto& u = r.unprocessed_arguments();
                                storage.insert(storage.end(), u.begin(), u.end());
                            }
                            std::vector<char*> argv;
                            for (auto& t : storage)
                                argv.push_back(t.data());
                            argv.push_back(nullptr);
                            int argc = int(argv.size()) - 1;
                            char** p = argv.data();
                            r.filter_parsed_arguments(argc, p);
                            for (int i = 0; i < argc; ++i)
                                look(p[i]);
                        });
                        break;
                    }
                }
                --depth;
            }

            template <typename A>
            void callback(A& x)
            {
                auto& b = x.builder;
                look(&x.view);
                look(x.value);
                for (int n = s.count(3, 40); n > 0; --n)
                {
                    switch (s.draw(14))
                    {
                    case 0: call([&] { b.append(token(), text()); }); break;
                    case 1: call([&] { b.append(x.view, text()); }); break;
                    case 2: call([&] { b.assign(token(), text()); }); break;
                    case 3: call([&] { b.assign(x.view, text()); }); break;
                    case 4: call([&] { b.clear(token()); }); break;
                    case 5: call([&] { b.clear(x.view); }); break;
                    case 6: call([&] { use(b.value(token())); }); break;
                    case 7: call([&] { use(b.value(x.view)); }); break;
                    case 8: call([&] { use(b.values(token())); }); break;
                    case 9: call([&] { use(b.values(x.view)); }); break;
                    case 10: call([&] { see(b.has(token())); see(b.has(x.view)); }); break;
                    case 11: call([&] { b.stream() << "x"; look(b.program_name()); }); break;
                    case 12:
                        if (s.chance(20))
                            b.error(text());
                        if (s.chance(20))
                            b.error(text(), x.view);
                        break;
                    default:
                        if (insertions < 8)
                        {
                            ++insertions;
                            x.new_arguments = tokens();
                        }
                        break;
                    }
                }
                look(x.value);
            }

            // ---- Declarations

            template <typename T>
            void common(T& t)
            {
                if (s.chance(40))
                    call([&] { t.help(text()); });
                if (s.chance(10))
                    call([&] { t.help([x = text()] { return x; }); });
                if (s.chance(20))
                    call([&] { t.section(text()); });
                if (s.chance(25))
                    call([&] { t.alias(s.chance(50) ? any_name() : any_flag()); });
                if (s.chance(15))
                    call([&] { t.visibility(Visibility(s.draw(4))); });
                if (s.chance(15))
                    call([&] { t.id(s.range(-5, 5)); });
                if (s.chance(35))
                    call([&] { t.callback([this](auto& x) { this->callback(x); }); });
            }

            Argument argument()
            {
                const auto first = name();
                note("argument", first);
                Argument a(first);
                if (s.chance(50))
                {
                    const auto lo = unsigned(s.draw(5));
                    const auto hi = s.chance(20) ? 0xFFFFFFFFu : unsigned(s.draw(8));
                    if (wild || hi >= lo)
                        call([&] { a.count(lo, std::max(hi, wild ? 0u : 1u)); });
                }
                if (s.chance(20))
                    call([&] { a.optional(s.chance(50)); });
                if (s.chance(10))
                    call([&] { a.mandatory(s.chance(50)); });
                common(a);
                if (wild && s.chance(20))
                    call([&] { a.name(text()); });
                if (wild && s.chance(10))
                {
                    Argument b(std::move(a));
                    call([&] { a.count(2); });
                    if (s.chance(70))
                        a = std::move(b);
                }
                if (s.chance(10))
                {
                    Argument b(a);
                    a = b;
                }
                return a;
            }

            Option option()
            {
                const auto first = flag();
                note("option", first);
                Option o(first);
                for (int n = s.count(2, 35); n > 0; --n)
                {
                    call([&]
                    {
                        const auto f = flag();
                        note(" flag", f);
                        o.flag(f);
                    });
                }
                const bool arg = s.chance(50);
                if (arg)
                    note(" with argument");
                if (arg)
                    call([&] { o.argument(name()); });
                if (s.chance(wild || !arg ? 20 : 0))
                {
                    call([&]
                    {
                        switch (s.draw(4))
                        {
                        case 0: o.constant(text()); break;
                        case 1: o.constant(s.chance(50)); break;
                        case 2: o.constant(s.range(-3, 1000)); break;
                        default: o.constant("c"); break;
                        }
                    });
                }
                if (s.chance(35))
                {
                    auto op = OptionOperation(s.draw(4));
                    if (!wild && ((arg && op == OptionOperation::CLEAR) || (!arg && op == OptionOperation::APPEND)))
                        op = OptionOperation::ASSIGN;
                    call([&] { o.operation(op); });
                }
                if (s.chance(25))
                    call([&] { o.type(OptionType(s.draw(6))); });
                if (s.chance(20))
                    call([&] { o.initial_value(text()); });
                if (wild && s.chance(15))
                    call([&] { o.mandatory(s.chance(70)); });
                common(o);
                if (wild && s.chance(10))
                {
                    Option b(std::move(o));
                    call([&] { o.flag("-x"); });
                    if (s.chance(70))
                        o = std::move(b);
                }
                if (s.chance(10))
                {
                    Option b(o);
                    o = b;
                }
                return o;
            }

            /// What parsers and commands have in common.
            template <typename T>
            void contents(T& t, int level)
            {
                const bool subs = level > 0 && s.chance(35);
                for (int n = s.range(0, 6); n > 0; --n)
                {
                    if (s.chance(15))
                        call([&] { t.current_section(text()); });
                    const auto k = s.draw(10);
                    if (k < 6)
                    {
                        auto o = option();
                        call([&] { t.add(o); });
                        if (wild && s.chance(5))
                            call([&] { t.add(o); });
                    }
                    else if (!subs || (wild && s.chance(10)))
                    {
                        auto a = argument();
                        call([&] { t.add(a); });
                        if (wild && s.chance(5))
                            call([&] { t.add(a); });
                    }
                    else
                    {
                        auto cmd = command(level - 1);
                        call([&] { t.add(cmd); });
                        if (wild && s.chance(5))
                            call([&] { t.add(cmd); });
                    }
                }
                for (int n = s.count(3, 30); n > 0; --n)
                {
                    const auto id = TextId(s.draw(10));
                    if (s.chance(70))
                        call([&] { t.text(id, text()); });
                    else
                        call([&] { t.text(id, [x = text()] { return x; }); });
                }
                if (s.chance(30))
                    call([&] { t.allow_multiple_subcommands(s.chance(70)); });
                if (s.chance(wild ? 20 : 3))
                    call([&] { t.require_subcommand(s.chance(50)); });
                if (s.chance(8))
                {
                    auto other = command(level - 1);
                    call([&] { t.copy_from(other); });
                    call([&] { t.copy_from(other); });
                }
            }

            Command command(int level)
            {
                const auto first = name();
                note("command {", first);
                Command cmd(first);
                if (s.chance(30))
                    call([&] { cmd.help(text()); });
                if (s.chance(20))
                    call([&] { cmd.about(text()); });
                if (s.chance(20))
                    call([&] { cmd.section(text()); });
                if (s.chance(20))
                    call([&] { cmd.visibility(Visibility(s.draw(4))); });
                if (level >= 0)
                    contents(cmd, level);
                if (wild && s.chance(15))
                {
                    Command b(std::move(cmd));
                    call([&] { cmd.name("x"); });
                    if (s.chance(70))
                        cmd = std::move(b);
                }
                if (wild && s.chance(3))
                    call([&] { cmd.add(cmd); });
                if (s.chance(10))
                {
                    Command b(cmd);
                    cmd = b;
                }
                note("}");
                return cmd;
            }

            void settings(ArgumentParser& p)
            {
                call([&] { p.auto_exit(false); });
                call([&] { p.option_style(style); });
                if (s.chance(80))
                    call([&] { p.stream(&own); });
                if (s.chance(30))
                    note("case-insensitive"), call([&] { p.case_insensitive(true); });
                if (s.chance(30))
                    note("abbreviated"), call([&] { p.allow_abbreviated_options(true); });
                if (s.chance(20))
                    call([&] { p.generate_help_option(false); });
                if (s.chance(40))
                    call([&] { p.ignore_undefined_arguments(true); });
                if (s.chance(40))
                    call([&] { p.ignore_undefined_options(true); });
                if (s.chance(20))
                    call([&] { p.version(text()); });
                if (s.chance(20))
                    call([&] { p.about(text()); });
                if (s.chance(50))
                    call([&] { p.line_width(s.pick(std::vector<unsigned>{80, 3, 4, 5, 7, 10, 16, 31, 0, 1, 2, 1000,
                                                                         0xFFFFFFFFu, 0x80000000u})); });
                for (int n = s.count(3, 35); n > 0; --n)
                    call([&] { p.add_word_splitting_rule(s.chance(50) ? text() : "inter nation al ization"); });
                if (s.chance(30))
                    call([&] { p.option_callback([this](auto& x) { this->callback(x); }); });
                if (s.chance(30))
                    call([&] { p.argument_callback([this](auto& x) { this->callback(x); }); });
            }

            void use(ArgumentIterator& it)
            {
                std::unique_ptr<IArgumentView> view;
                std::string_view value;
                for (int n = s.range(0, 40); n > 0; --n)
                {
                    bool more = false;
                    if (!call([&] { more = it.next(view, value); }))
                        break;
                    if (more)
                    {
                        look(view.get());
                        look(value);
                    }
                    if (s.chance(10))
                        call([&] { use(it.parsed_arguments()); });
                    if (s.chance(3))
                    {
                        ArgumentIterator other(std::move(it));
                        call([&] { it.next(view, value); });
                        call([&] { (void)it.parsed_arguments(); });
                        it = std::move(other);
                    }
                    if (!more && s.chance(70))
                        break;
                }
            }

            template <typename P>
            void parse(P& p, std::vector<ParsedArguments>& results)
            {
                const auto toks = tokens();
                note("parse " + pbt::quote_all(toks));
                Strings argv_storage{"dir/prog"};
                std::vector<char*> argv;
                const bool use_argv = s.chance(25);
                if (use_argv)
                {
                    argv_storage.insert(argv_storage.end(), toks.begin(), toks.end());
                    for (auto& t : argv_storage)
                        argv.push_back(t.data());
                    argv.push_back(nullptr);
                }
                int argc = int(argv.size()) - 1;
                if (use_argv && s.chance(4))
                {
                    // Not even a program name (execve permits it).
                    argc = 0;
                    argv.assign(1, nullptr);
                }
                std::vector<std::string_view> views(toks.begin(), toks.end());
                if (s.chance(70))
                {
                    if (call([&] { results.push_back(use_argv ? p.parse(argc, argv.data()) : p.parse(views)); }))
                    {
                        ++parsed;
                        accepted += results.back().result_code() != ParserResultCode::FAILURE;
                    }
                }
                else
                {
                    call([&]
                    {
                        auto it = use_argv ? p.make_iterator(argc, argv.data()) : p.make_iterator(views);
                        ++parsed;
                        use(it);
                        results.push_back(it.parsed_arguments());
                    });
                }
            }
        };

        void Fuzz::run()
        {
            auto* old_out = std::cout.rdbuf(&sink);
            auto* old_err = std::cerr.rdbuf(&sink);
            struct Restore
            {
                std::streambuf *o, *e;
                ~Restore()
                {
                    std::cout.rdbuf(o);
                    std::cerr.rdbuf(e);
                }
            } restore{old_out, old_err};
            pool.reserve(100000);
            wild = s.chance(25);
            style = OptionStyle(s.draw(3));
            note(style == OptionStyle::STANDARD ? "STANDARD" : style == OptionStyle::SLASH ? "SLASH" : "DASH");
            std::vector<ParsedArguments> results;
            {
                ArgumentParser parser(s.chance(80) ? "prog" : text(), s.chance(50));
                settings(parser);
                contents(parser, 2);
                bool first = true;
                for (int n = s.range(1, 5); n > 0; --n)
                {
                    const auto& cp = parser;
                    const auto k = s.draw(first && !wild ? 4 : 10);
                    first = false;
                    switch (k)
                    {
                    case 0:
                    case 1:
                    case 2:
                    case 3: parse(cp, results); break;
                    case 4:
                    case 5: note("write_help_text"); call([&] { cp.write_help_text(); }); break;
                    case 6:
                    {
                        Strings path;
                        for (int k = s.count(3, 60); k > 0; --k)
                            path.push_back(s.chance(70) ? s.pick(Strings{"add", "del", "x", "N", "FILE"}) : token());
                        note("write_subcommand_help_text " + pbt::quote_all(path));
                        call([&] { cp.write_subcommand_help_text(path); });
                        break;
                    }
                    case 7:
                    {
                        ArgumentParser other(std::move(parser));
                        call([&] { parser.write_help_text(); });
                        call([&] { (void)parser.parse(std::vector<std::string_view>{}); });
                        call([&] { settings(parser); });
                        parser = std::move(other);
                        break;
                    }
                    case 8:
                        parse(parser, results); // consumes it
                        break;
                    default:
                        if (!results.empty())
                            use(s.pick(results));
                        else
                            contents(parser, 1);
                        break;
                    }
                }
            }
            if (results.empty() || s.chance(10))
                results.emplace_back();
            for (int n = s.range(1, 3); n > 0; --n)
            {
                const auto i = s.draw(results.size());
                auto copy = results[i];
                if (s.chance(20))
                {
                    auto moved = std::move(copy);
                    use(copy);
                    copy = std::move(moved);
                }
                use(copy);
                if (s.chance(20))
                    results[i] = results[s.draw(results.size())];
            }
            c.nontrivial = parsed > 0;
            c.extra_evaluations = calls;
            c.label_if(parsed > 0, "parsed");
            c.label_if(accepted > 0, "accepted");
            c.label_if(exceptions > 0, "ArgosException thrown");
            c.label_if(wild, "invalid declarations and moved-from objects");
            c.label_if(insertions > 0, "arguments inserted");
            if (seen.sum == 12345678)
                c.label("improbable");
        }
    }

    void api_case(pbt::Src& s, pbt::Case& c, std::string* log)
    {
        Fuzz(s, c, log).run();
    }
}
