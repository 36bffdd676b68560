// Declarations as plain data, independent of the library's own types so that
// the same data can be given to the library, the amalgamated edition and the
// reference model.
#pragma once
#include <map>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace spec
{
    using Strings = std::vector<std::string>;

    enum class Style { STANDARD, SLASH, DASH };
    enum class Op { NONE, ASSIGN, APPEND, CLEAR };
    enum class Type { NORMAL, HELP, STOP, EXIT, LAST_ARGUMENT, LAST_OPTION };
    enum class Code { NONE, SUCCESS, STOP, FAILURE };
    // Same order as argos::TextId
    enum class Text
    {
        INITIAL_TEXT, USAGE_TITLE, USAGE, ABOUT, SUBCOMMANDS_TITLE,
        ARGUMENTS_TITLE, OPTIONS_TITLE, FINAL_TEXT, ERROR_USAGE, HELP
    };

    constexpr int VIS_USAGE = 1;
    constexpr int VIS_TEXT = 2;

    struct Common
    {
        std::optional<std::string> help;
        bool help_callback = false;
        std::optional<std::string> section;
        std::optional<std::string> cur_section; // current_section() before add
        std::string alias;
        std::optional<int> visibility;
        std::optional<int> id;
        // Which of several equivalent ways of declaring it to use.
        unsigned how = 0;

        int vis() const { return visibility.value_or(3); }
    };

    struct Arg : Common
    {
        std::string name;
        bool set_count = false;
        unsigned lo = 1, hi = 1;
        std::optional<bool> set_optional; // optional()/mandatory() instead
        bool has_callback = false;
    };

    struct Opt : Common
    {
        Strings flags;
        std::string argument;
        std::string constant;
        bool set_op = false;
        Op op = Op::ASSIGN;
        Type type = Type::NORMAL;
        bool mandatory = false;
        std::string initial;
        bool has_callback = false;
        // Filled in by finish():
        bool generated = false;
    };

    struct Cmd : Common
    {
        std::string name;
        std::vector<Arg> args;
        std::vector<Opt> opts;
        std::vector<Cmd> cmds;
        // Order in which the above are added: kind ('a', 'o', 'c') and index.
        // Empty: arguments, options, commands.
        std::vector<std::pair<char, int>> order;
        std::map<Text, std::string> texts;
        bool text_callbacks = false;
        bool multi = false;
        std::optional<bool> require;
        std::optional<std::string> last_section; // current_section() at the end
    };

    struct Parser
    {
        Cmd cmd; // name is the program name
        Style style = Style::STANDARD;
        bool abbrev = false;
        bool ci = false;
        bool gen_help = true;
        std::optional<std::string> version;
        bool ignore_args = false;
        bool ignore_opts = false;
        unsigned line_width = 80;
        Strings split_rules;
        std::optional<std::pair<int, int>> exit_codes; // error, normal
        bool auto_exit = false;
        bool arg_callback = false;
        bool opt_callback = false;
        unsigned how = 0; // see Common
    };

    /// One callback or iterator step.
    struct Event
    {
        char kind;          // 'o' option, 'a' argument, 'c' command, 'u' unknown
        std::string name;   // first flag, argument name or command name
        int index;          // index of the definition in its command
        std::string value;

        friend bool operator==(const Event&, const Event&) = default;
    };

    /// Observable result for one command.
    struct Node
    {
        std::string name;
        Code code = Code::NONE;
        std::optional<Strings> stop_flags;
        std::map<std::string, Strings> values; // by every name
        // Name of the definition that produced each value (first flag/name).
        std::map<std::string, Strings> sources;
        // The same as the number of the definition (arguments, then options;
        // -1: not known). From the model only.
        std::map<std::string, std::vector<int>> definitions;
        Strings unprocessed;
        std::vector<Node> subs;
    };

    std::string describe(const Parser& p);
    std::string describe(const Node& n, int indent = 0);
    std::string describe(const Event& e);
    std::string describe(const std::vector<Event>& e);
    const char* to_string(Code c);
}
