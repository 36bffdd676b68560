// Reference model: what the documentation says a command line means. It is
// written without looking ahead: positional arguments are collected while the
// command line is read, and distributed over the declared arguments
// afterwards, when their number is known.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "spec.hpp"

namespace model
{
    /// The declaration with implied parts made explicit: generated help and
    /// version options, default operations and constants, argument counts,
    /// required sub-commands.
    spec::Parser finish(const spec::Parser& p);

    /// Groups of names that share the same values. Returns the group number
    /// of each argument followed by each option (-1 for NONE options).
    std::vector<int> value_groups(const spec::Cmd& c);

    bool is_option(const std::string& token, spec::Style style);

    struct Parsed
    {
        bool failed = false;
        std::string error;      // Message without command name and usage
        std::string error_cmd;  // Full name of the command concerned
        std::vector<spec::Event> events;
        std::vector<int> event_inst;    // command instance of each event
        std::vector<int> event_top;     // active command after each event
        std::vector<size_t> event_log;  // length of the log after each event
        std::vector<size_t> event_before; // the same, when callbacks are called
        std::vector<size_t> event_after; // the same, after the event's action
        std::vector<std::string> event_path;
        bool unspecified = false;       // The outcome isn't specified
        std::string why;
        bool help_written = false;      // by a HELP option
        std::string help_cmd;           // full name of that command
        bool version_written = false;
        // Things that happened, for statistics and for selecting cases.
        bool used_stop = false, used_last_argument = false, used_last_option = false;
        int commands = 0, options = 0, positionals = 0, siblings = 0;
        int unknown_tokens = 0, clusters = 0, attached = 0, equals = 0, abbreviated = 0;
        bool surplus = false;
        bool last_argument_failed = false; // the last event is an option that ended in error
        bool consumed = false; // all tokens were read

        spec::Node node() const;               // final result
        /// Values as they were when the event 'k' had been processed (-1:
        /// before the first one). Result codes are not meaningful.
        spec::Node snapshot(int k) const;
        /// Values of the command instance of event k at that point.
        spec::Node inst_snapshot(int k) const;
        /// The same, when its callbacks are called and after its action.
        spec::Node callback_snapshot(int k, bool after) const;

        // Internal
        struct Log
        {
            int inst;
            char kind;
            int index;
            std::string value;
            bool anonymous = false; // the source isn't known
        };
        struct Inst
        {
            const spec::Cmd* cmd;
            int parent;
            size_t created; // log length when created
            std::string path, full_name;
            size_t positionals = 0;
            spec::Code code = spec::Code::NONE;
            const spec::Opt* stop = nullptr;
            std::vector<int> groups;
        };
        std::vector<Log> log;
        std::vector<Inst> insts;
        std::shared_ptr<spec::Parser> parser;

        spec::Node make_node(int inst, size_t log_size, bool children) const;
        /// Which declared argument positional number k of inst belongs to.
        int argument_of(int inst, size_t k) const;
    };

    /// What a callback does. Values are set with op '=', '+' or '0' (clear),
    /// by name, or if the name is empty by the view of the current option or
    /// argument.
    struct ValueOp { char op; std::string name, value; };

    struct Action
    {
        std::vector<ValueOp> ops;
        spec::Strings insert; // tokens to insert after the current one
    };

    /// Called after each option or argument event. k: the number of such events
    /// before this one.
    using Act = std::function<Action(const spec::Event&, int k, const spec::Cmd&)>;

    /// 'p' must be finished.
    Parsed parse(const spec::Parser& p, const spec::Strings& tokens,
                 const Act& act = {});
}
