// A small property-based testing engine.
//
// Every property is a function of a stream of bounded choices (Src). A random
// case is a pure function of (seed, property, case index); the recorded
// choices are what is shrunk, saved and replayed. The same functions are
// driven by libFuzzer, which supplies the choices as bytes.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace pbt
{
    struct Fail
    {
        std::string msg;
    };

    struct Discard
    {
        std::string why;
    };

    [[noreturn]] inline void fail(std::string msg) { throw Fail{std::move(msg)}; }
    [[noreturn]] inline void discard(std::string why) { throw Discard{std::move(why)}; }

    class Src
    {
    public:
        static Src random(uint64_t seed);
        static Src replay(std::vector<uint64_t> choices);
        /// The same choices once more.
        static Src repeat(std::vector<uint64_t> choices);
        static Src bytes(const uint8_t* data, size_t size);

        /// A value in [0, n). 0 is the "simplest" value.
        uint64_t draw(uint64_t n);
        /// lo..hi inclusive; lo is simplest.
        int range(int lo, int hi) { return lo + int(draw(uint64_t(hi - lo) + 1)); }
        /// True with probability num/den; false is simplest.
        bool chance(unsigned num, unsigned den = 100) { return draw(den) >= den - num; }
        template <typename T>
        const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
        size_t size() const { return m_count; }
        /// Number of elements: geometric-ish, at most max.
        int count(int max, unsigned more_percent)
        {
            int n = 0;
            while (n < max && chance(more_percent))
                ++n;
            return n;
        }
        const std::vector<uint64_t>& recorded() const { return m_rec; }
        /// When set, choices are also recorded in shared memory so that they
        /// survive a crash of the process.
        static uint64_t* shared_buffer;
        static size_t shared_capacity;

    private:
        uint64_t next_raw(uint64_t n);
        enum class Mode { RANDOM, REPLAY, BYTES } m_mode = Mode::REPLAY;
        uint64_t m_s[4] = {};
        std::vector<uint64_t> m_choices;
        size_t m_pos = 0;
        size_t m_count = 0;
        bool m_shared = true;
        std::vector<uint64_t> m_rec;
    };

    uint64_t mix(uint64_t a, uint64_t b);
    uint64_t hash(std::string_view s);

    /// What a property says about the case it just looked at.
    struct Case
    {
        std::ostringstream desc;      // Human readable description of the case
        bool nontrivial = false;
        uint64_t extra_evaluations = 0; // Executions of the code beyond one
        std::map<std::string, uint64_t> labels;

        /// Keeps the description should the process crash.
        void publish() const;
        /// Where it's kept, if anywhere.
        static char* shared_desc;
        static size_t shared_desc_size;

        void label(const std::string& s) { labels[s]++; }
        void label_if(bool b, const std::string& s) { if (b) labels[s]++; }
    };

    struct Scenario
    {
        std::string id;      // Id in known_findings.jsonl or a free name
        bool finding;        // true: recorded, unrepaired defect
        std::string text;
        std::function<void()> run; // Throws Fail if the property is broken
    };

    struct Property
    {
        std::string id;
        std::string rule;
        uint64_t quick_cases;
        uint64_t thorough_cases;
        std::function<void(Src&, Case&)> run;
        std::vector<Scenario> scenarios = {};
        std::vector<std::string> assumptions = {};
    };

    /// Defined by each property's source file.
    extern const Property& the_property();

    /// Printable form of a string with escapes, in double quotes.
    std::string quote(std::string_view s);

    template <typename C>
    std::string quote_all(const C& c)
    {
        std::string r = "[";
        for (const auto& s : c)
        {
            if (r.size() > 1)
                r += ", ";
            r += quote(s);
        }
        return r + "]";
    }
}
