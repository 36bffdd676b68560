#include "outcome.hpp"
#include <iostream>
#include <optional>
#include "build.hpp"
#include "engine.hpp"

namespace BUILD_NS
{
    using namespace argos;

    namespace
    {
        std::string message(const ArgosException& e)
        {
            // File name and line number differ
            std::string s = e.what();
            const auto pos = s.find(": ");
            return pos == std::string::npos ? s : s.substr(pos + 2);
        }

        void view(std::ostream& os, const IArgumentView& v)
        {
            os << " section=" << pbt::quote(v.section()) << " alias=" << pbt::quote(v.alias())
               << " vis=" << unsigned(v.visibility()) << " id=" << v.id() << " vid="
               << int(v.value_id()) << " aid=" << int(v.argument_id())
               << " help=" << pbt::quote(v.help());
        }

        template <typename F>
        void attempt(std::ostream& os, const char* name, F&& f)
        {
            os << " " << name << "=";
            try
            {
                f(os);
            }
            catch (const ArgosException& e)
            {
                os << "<exception: " << message(e) << ">";
            }
        }

        template <typename T>
        void list(std::ostream& os, const std::vector<T>& v)
        {
            os << "[";
            for (auto& x : v)
                os << x << ";";
            os << "]";
        }

        void values(std::ostream& os, const ParsedArguments& args, const IArgumentView& v)
        {
            const auto vals = args.values(v);
            os << " has=" << args.has(v) << " n=" << vals.size();
            for (const auto& x : vals)
                os << " " << pbt::quote(x.as_string()) << " from " << view_name(x.argument().get());
            for (const auto& x : vals)
            {
                attempt(os, "int", [&](auto& o) { o << x.as_int(); });
                attempt(os, "int0", [&](auto& o) { o << x.as_int(7, 0); });
                attempt(os, "uint", [&](auto& o) { o << x.as_uint(); });
                attempt(os, "long", [&](auto& o) { o << x.as_long(7, 16); });
                attempt(os, "llong", [&](auto& o) { o << x.as_llong(); });
                attempt(os, "ulong", [&](auto& o) { o << x.as_ulong(7, 8); });
                attempt(os, "ullong", [&](auto& o) { o << x.as_ullong(7, 36); });
                attempt(os, "defaults", [&](auto& o) { o << x.as_uint() << x.as_long(); });
                attempt(os, "defaults", [&](auto& o) { o << x.as_llong() << x.as_int(); });
                attempt(os, "defaults", [&](auto& o) { o << x.as_ulong() << x.as_ullong(); });
                attempt(os, "float", [&](auto& o) { o << x.as_float(); });
                attempt(os, "double", [&](auto& o) { o << x.as_double(); });
                attempt(os, "bool", [&](auto& o) { o << x.as_bool(); });
                attempt(os, "split", [&](auto& o) { list(o, x.split('=', 0, 2).raw_values()); });
                attempt(os, "split_n", [&](auto& o) { list(o, x.split_n('.', 2).raw_values()); });
            }
            attempt(os, "value", [&](auto& o) { o << args.value(v).as_string("none"); });
            attempt(os, "ints", [&](auto& o) { list(o, vals.as_ints({1, 2})); });
            attempt(os, "uints", [&](auto& o) { list(o, vals.as_uints({1, 2}, 2)); });
            attempt(os, "longs", [&](auto& o) { list(o, vals.as_longs({1, 2}, 0)); });
            attempt(os, "llongs", [&](auto& o) { list(o, vals.as_llongs({1, 2}, 16)); });
            attempt(os, "ulongs", [&](auto& o) { list(o, vals.as_ulongs({1, 2}, 8)); });
            attempt(os, "ullongs", [&](auto& o) { list(o, vals.as_ullongs({1, 2}, 36)); });
            attempt(os, "defaults", [&](auto& o) { list(o, vals.as_ints()); list(o, vals.as_uints()); });
            attempt(os, "defaults", [&](auto& o) { list(o, vals.as_longs()); list(o, vals.as_ulongs()); });
            attempt(os, "defaults", [&](auto& o) { list(o, vals.as_llongs()); list(o, vals.as_ullongs()); });
            attempt(os, "defaults", [&](auto& o) { list(o, vals.as_floats()); list(o, vals.as_doubles()); });
            attempt(os, "defaults", [&](auto& o) { list(o, vals.as_strings()); list(o, vals.split(',').raw_values()); });
            attempt(os, "floats", [&](auto& o) { list(o, vals.as_floats({1, 2})); });
            attempt(os, "doubles", [&](auto& o) { list(o, vals.as_doubles({1, 2})); });
            attempt(os, "strings", [&](auto& o) { list(o, vals.as_strings({"d"})); });
            attempt(os, "split", [&](auto& o) { list(o, vals.split(',', 0, 3).raw_values()); });
            attempt(os, "split_n", [&](auto& o) { list(o, vals.split_n(',', 2).raw_values()); });
            attempt(os, "sources", [&](auto& o)
            {
                for (auto& x : vals.values())
                    o << view_name(x.argument().get()) << ";";
            });
            attempt(os, "definitions", [&](auto& o)
            {
                for (auto& x : vals.arguments())
                    o << view_name(x.get()) << ";";
            });
            attempt(os, "value1", [&](auto& o) { o << vals.value(1).as_string("none"); });
            os << "\n";
        }

        void command_view(std::ostream& os, const CommandView& c)
        {
            os << "command " << c.name() << " require=" << c.require_subcommand();
            view(os, c);
            os << "\n";
            for (auto& a : c.arguments())
            {
                os << "  arg " << a.name() << " " << a.count().first << ".." << a.count().second
                   << " optional=" << a.optional();
                view(os, a);
                os << "\n";
            }
            for (auto& o : c.options())
            {
                os << "  opt " << pbt::quote_all(o.flags()) << " op=" << int(o.operation())
                   << " type=" << int(o.type()) << " argument=" << o.argument() << " constant="
                   << o.constant() << " initial=" << o.initial_value() << " optional=" << o.optional();
                view(os, o);
                os << "\n";
            }
            for (auto& s : c.subcommands())
                command_view(os, s);
        }

        void result(std::ostream& os, const ParsedArguments& args)
        {
            os << "result " << args.name() << " code=" << int(args.result_code());
            attempt(os, "stop", [&](auto& o) { list(o, args.stop_option().flags()); });
            os << " unprocessed=" << pbt::quote_all(args.unprocessed_arguments()) << "\n";
            for (auto& a : args.all_arguments())
                values(os, args, *a);
            for (auto& o : args.all_options())
                values(os, args, *o);
            for (auto& o : args.all_options())
            {
                for (auto& f : o->flags())
                    attempt(os, f.c_str(), [&](auto& s) { list(s, args.values(f).raw_values()); });
            }
            attempt(os, "unknown name", [&](auto& s) { s << args.has("no such name"); });
            attempt(os, "error", [&](auto&) { args.error("custom error"); });
            os << "\n";
            for (auto& s : args.subcommands())
                result(os, s);
        }
    }

    std::string transcript(const ParsedArguments& args)
    {
        std::ostringstream os;
        command_view(os, args.command());
        result(os, args);
        print(args, os);
        return os.str();
    }

    std::string outcome(const spec::Parser& p, const spec::Strings& tokens)
    {
        std::ostringstream log;  // what the library writes
        std::ostringstream os;   // what the functions return
        auto hooks = std::make_shared<Hooks>();
        hooks->option = [&](auto& path, int i, auto& a)
        {
            log << "<option callback " << path << i << " " << a.value << ">";
            if (a.value == "insert")
                a.new_arguments = {"inserted", "x"};
            if (a.value == "callback error")
                a.builder.error("callback error", a.view);
        };
        hooks->argument = [&](auto& path, int i, auto& a)
        {
            log << "<argument callback " << path << i << " " << a.value << ">";
            if (a.value == "append")
                a.builder.append(a.view, "appended");
            if (a.value == "insert")
                a.new_arguments = {"inserted"};
        };
        hooks->any_option = [&](auto& a) { log << "<option " << a.view.flags().front() << ">"; };
        hooks->any_argument = [&](auto& a) { log << "<argument " << a.view.name() << ">"; };

        std::optional<ArgumentParser> parser;
        try
        {
            parser = make_parser(p, &log, hooks);
        }
        catch (const ArgosException& e)
        {
            return "declaration rejected: " + message(e);
        }
        const auto& cp = *parser;
        attempt(os, "help", [&](auto&) { cp.write_help_text(); });
        for (auto& c : p.cmd.cmds)
        {
            attempt(os, "subhelp", [&](auto&) { cp.write_subcommand_help_text({c.name}); });
            for (auto& cc : c.cmds)
                attempt(os, "subhelp", [&](auto&) { cp.write_subcommand_help_text({c.name, cc.name}); });
        }
        attempt(os, "iterate", [&](auto& o)
        {
            auto it = cp.make_iterator(views(tokens));
            std::unique_ptr<IArgumentView> arg;
            std::string_view value;
            while (it.next(arg, value))
                o << "(" << view_name(arg.get()) << " " << pbt::quote(value) << ")";
            o << "code " << int(it.parsed_arguments().result_code());
            o << it.next(arg, value);
        });
        os << "\n";
        attempt(os, "parse", [&](auto& o)
        {
            const auto args = parser->parse(views(tokens));
            o << transcript(args);
        });
        return os.str() + "\n--- written ---\n" + log.str();
    }

    std::string conversions(const spec::Strings& strings)
    {
        std::ostringstream os, log;
        ArgumentParser parser("p");
        parser.auto_exit(false).stream(&log).add(Argument("V").count(0, 100)).add(Option("-w").argument("W"))
            .add(Option("--").type(OptionType::LAST_OPTION).operation(OptionOperation::NONE));
        auto tokens = strings;
        tokens.insert(tokens.begin(), "--");
        const auto args = parser.move().parse(views(tokens));
        const auto given = args.values("V"), none = args.values("-w");
        for (const int base : {0, 2, 3, 8, 10, 16, 36, 1, 37, -1})
        {
            os << "\nbase " << base;
            for (const auto& vals : {given, none})
            {
                attempt(os, "ints", [&](auto& o) { list(o, vals.as_ints({1, 2}, base)); });
                attempt(os, "uints", [&](auto& o) { list(o, vals.as_uints({3, 2}, base)); });
                attempt(os, "longs", [&](auto& o) { list(o, vals.as_longs({4, 2}, base)); });
                attempt(os, "ulongs", [&](auto& o) { list(o, vals.as_ulongs({5, 2}, base)); });
                attempt(os, "llongs", [&](auto& o) { list(o, vals.as_llongs({6, 2}, base)); });
                attempt(os, "ullongs", [&](auto& o) { list(o, vals.as_ullongs({7, 2}, base)); });
            }
            auto all = given.values();
            all.push_back(none.value(0));
            for (const auto& x : all)
            {
                attempt(os, "int", [&](auto& o) { o << x.as_int(1, base); });
                attempt(os, "uint", [&](auto& o) { o << x.as_uint(2, base); });
                attempt(os, "long", [&](auto& o) { o << x.as_long(3, base); });
                attempt(os, "ulong", [&](auto& o) { o << x.as_ulong(4, base); });
                attempt(os, "llong", [&](auto& o) { o << x.as_llong(5, base); });
                attempt(os, "ullong", [&](auto& o) { o << x.as_ullong(6, base); });
            }
        }
        for (const auto& vals : {given, none})
        {
            for (const auto& x : vals)
            {
                attempt(os, "float", [&](auto& o) { o << std::hexfloat << x.as_float(1); });
                attempt(os, "double", [&](auto& o) { o << std::hexfloat << x.as_double(2); });
                attempt(os, "bool", [&](auto& o) { o << x.as_bool(true) << x.as_bool(false); });
                attempt(os, "string", [&](auto& o) { o << x.as_string("def"); });
            }
            attempt(os, "floats", [&](auto& o) { o << std::hexfloat; list(o, vals.as_floats({1, 3})); });
            attempt(os, "doubles", [&](auto& o) { o << std::hexfloat; list(o, vals.as_doubles({1, 4})); });
            attempt(os, "strings", [&](auto& o) { list(o, vals.as_strings({"a", "b"})); });
            for (const auto lo : {0, 1, 2, 3})
            {
                for (const auto hi : {0, 1, 2, 3, 5})
                {
                    attempt(os, "split", [&](auto& o) { list(o, vals.split(',', size_t(lo), size_t(hi)).raw_values()); });
                    for (const auto& x : vals)
                        attempt(os, "split", [&](auto& o) { list(o, x.split(',', size_t(lo), size_t(hi)).raw_values()); });
                }
                attempt(os, "split_n", [&](auto& o) { list(o, vals.split_n(',', size_t(lo)).raw_values()); });
                for (const auto& x : vals)
                    attempt(os, "split_n", [&](auto& o) { list(o, x.split_n(',', size_t(lo)).raw_values()); });
            }
        }
        return os.str() + "\n--- written ---\n" + log.str();
    }

    void program(const spec::Parser& p, const spec::Strings& argv, std::ostream* stream)
    {
        auto parser = make_parser(p, stream);
        std::vector<char*> pointers;
        for (auto& a : argv)
            pointers.push_back(const_cast<char*>(a.c_str()));
        pointers.push_back(nullptr);
        const auto args = parser.parse(int(argv.size()), pointers.data());
        std::cout << "code " << int(args.result_code()) << "\n";
        print(args);
        for (auto& a : args.all_arguments())
            std::cout << args.values(*a).as_ints({}).size() << "\n";
        for (auto& o : args.all_options())
            std::cout << args.values(*o).as_doubles({}).size() << "\n";
        args.error("the end");
    }
}
