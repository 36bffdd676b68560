#include "engine.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <chrono>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
    char* Case::shared_desc = nullptr;
    size_t Case::shared_desc_size = 0;

    void Case::publish() const
    {
        if (!shared_desc)
            return;
        const auto s = desc.str();
        const auto n = std::min(shared_desc_size - 1, s.size());
        memcpy(shared_desc, s.data(), n);
        shared_desc[n] = 0;
    }

    uint64_t* Src::shared_buffer = nullptr;
    size_t Src::shared_capacity = 0;

    namespace
    {
        uint64_t splitmix(uint64_t& x)
        {
            uint64_t z = (x += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }

        uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    }

    uint64_t mix(uint64_t a, uint64_t b)
    {
        uint64_t x = a * 0x2545F4914F6CDD1Dull + b + 0x632BE59BD9B4E019ull;
        return splitmix(x);
    }

    uint64_t hash(std::string_view s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s)
        {
            h ^= c;
            h *= 1099511628211ull;
        }
        return mix(h, s.size());
    }

    Src Src::random(uint64_t seed)
    {
        Src s;
        s.m_mode = Mode::RANDOM;
        for (auto& x : s.m_s)
            x = splitmix(seed);
        return s;
    }

    Src Src::replay(std::vector<uint64_t> choices)
    {
        Src s;
        s.m_mode = Mode::REPLAY;
        s.m_choices = std::move(choices);
        return s;
    }

    Src Src::repeat(std::vector<uint64_t> choices)
    {
        auto s = replay(std::move(choices));
        s.m_shared = false;
        return s;
    }

    Src Src::bytes(const uint8_t* data, size_t size)
    {
        Src s;
        s.m_mode = Mode::BYTES;
        s.m_choices.assign(data, data + size);
        return s;
    }

    uint64_t Src::next_raw(uint64_t n)
    {
        switch (m_mode)
        {
        case Mode::RANDOM:
        {
            const uint64_t result = rotl(m_s[1] * 5, 7) * 9;
            const uint64_t t = m_s[1] << 17;
            m_s[2] ^= m_s[0];
            m_s[3] ^= m_s[1];
            m_s[1] ^= m_s[2];
            m_s[0] ^= m_s[3];
            m_s[2] ^= t;
            m_s[3] = rotl(m_s[3], 45);
            return (result >> 8) % n;
        }
        case Mode::REPLAY:
            return m_pos < m_choices.size() ? m_choices[m_pos++] % n : 0;
        case Mode::BYTES:
        {
            uint64_t v = 0;
            int k = n <= 256 ? 1 : n <= 65536 ? 2 : 8;
            while (k-- > 0)
                v = (v << 8) | (m_pos < m_choices.size() ? m_choices[m_pos++] : 0);
            return v % n;
        }
        }
        return 0;
    }

    uint64_t Src::draw(uint64_t n)
    {
        if (n <= 1)
            return 0;
        const auto v = next_raw(n);
        m_rec.push_back(v);
        ++m_count;
        if (m_shared && shared_buffer && m_rec.size() < shared_capacity)
        {
            shared_buffer[m_rec.size()] = v;
            shared_buffer[0] = m_rec.size();
        }
        return v;
    }

    std::string quote(std::string_view s)
    {
        std::string r = "\"";
        char buf[8];
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
                (r += '\\') += char(c);
            else if (c == '\n')
                r += "\\n";
            else if (c < 32 || c >= 127)
            {
                snprintf(buf, sizeof buf, "\\x%02x", c);
                r += buf;
            }
            else
                r += char(c);
        }
        return r + "\"";
    }

    namespace
    {
        enum Status : int { RUNNING = 0, PASS, FAILED, DISCARDED };

        struct Shared
        {
            int status;
            uint64_t index;
            char msg[8192];
            char desc[32768];
            uint64_t choices[1 << 16];
        };

        // Index of the first case that has failed in any worker.
        std::atomic<uint64_t>* first_failure = nullptr;

        Shared* new_shared()
        {
            void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED)
            {
                perror("mmap");
                exit(3);
            }
            return static_cast<Shared*>(p);
        }

        void copy_text(char* to, size_t cap, const std::string& s)
        {
            const auto n = std::min(cap - 1, s.size());
            memcpy(to, s.data(), n);
            to[n] = 0;
        }

        void cpu_limit(int seconds)
        {
            itimerval t{};
            t.it_value.tv_sec = seconds;
            setitimer(ITIMER_VIRTUAL, &t, nullptr);
        }

        constexpr int CASE_CPU_SECONDS = 20;

        // Runs one case in this process. Never throws.
        int run_case(Src& src, Case& c, std::string& msg)
        {
            cpu_limit(CASE_CPU_SECONDS);
            try
            {
                the_property().run(src, c);
                return PASS;
            }
            catch (const Fail& e)
            {
                msg = e.msg;
                return FAILED;
            }
            catch (const Discard& e)
            {
                msg = e.why;
                return DISCARDED;
            }
            catch (const std::exception& e)
            {
                msg = std::string("unexpected exception: ") + e.what();
                return FAILED;
            }
        }

        struct ChildResult
        {
            int status;
            std::string msg;
            std::string desc;
            std::vector<uint64_t> choices;
        };

        std::string describe_wait_status(int st)
        {
            if (WIFSIGNALED(st))
            {
                if (WTERMSIG(st) == SIGVTALRM)
                    return "did not terminate within "
                           + std::to_string(CASE_CPU_SECONDS) + " s of CPU time";
                return "crashed with signal " + std::to_string(WTERMSIG(st));
            }
            return "the process ended with exit code "
                   + std::to_string(WEXITSTATUS(st))
                   + " (sanitizer report or unexpected exit)";
        }

        std::string read_file(const std::string& path, size_t max = 1 << 20)
        {
            std::ifstream f(path, std::ios::binary);
            std::string s(max, '\0');
            f.read(s.data(), std::streamsize(max));
            s.resize(size_t(f.gcount()));
            return s;
        }

        std::string tmp_dir;

        // Runs fn in a child; the exit of the child by any other way than the
        // end of fn is a failure.
        ChildResult in_child(const std::function<int(std::string&, std::string&)>& fn)
        {
            static Shared* sh = new_shared();
            memset(sh, 0, sizeof(Shared) - sizeof(sh->choices));
            sh->choices[0] = 0;
            const auto err = tmp_dir + "/child.err";
            fflush(nullptr);
            std::cout.flush();
            const pid_t pid = fork();
            if (pid < 0)
            {
                perror("fork");
                exit(3);
            }
            if (pid == 0)
            {
                const int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(fd, 2);
                Src::shared_buffer = sh->choices;
                Src::shared_capacity = std::size(sh->choices);
                Case::shared_desc = sh->desc;
                Case::shared_desc_size = sizeof sh->desc;
                std::string msg, desc;
                const int st = fn(msg, desc);
                copy_text(sh->msg, sizeof sh->msg, msg);
                copy_text(sh->desc, sizeof sh->desc, desc);
                sh->status = st;
                _exit(0);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            ChildResult r;
            r.status = sh->status;
            r.msg = sh->msg;
            r.desc = sh->desc;
            r.choices.assign(sh->choices + 1, sh->choices + 1 + sh->choices[0]);
            if (r.status == RUNNING)
            {
                r.status = FAILED;
                r.msg = describe_wait_status(st);
                auto text = read_file(err);
                const auto pos = std::min({text.find("ERROR:"), text.find("runtime error:"),
                                           text.find("WARNING: ThreadSanitizer")});
                if (pos != std::string::npos)
                {
                    const auto start = text.rfind('\n', pos);
                    text = text.substr(start == std::string::npos ? 0 : start + 1, 3000);
                }
                else if (text.size() > 1500)
                    text.resize(1500);
                r.msg += "\n" + text;
            }
            return r;
        }

        ChildResult run_choices(const std::vector<uint64_t>& choices)
        {
            return in_child([&](std::string& msg, std::string& desc)
            {
                auto src = Src::replay(choices);
                Case c;
                const int st = run_case(src, c, msg);
                desc = c.desc.str();
                return st;
            });
        }

        bool fails(const std::vector<uint64_t>& choices, ChildResult& out)
        {
            auto r = run_choices(choices);
            if (r.status != FAILED)
                return false;
            out = std::move(r);
            return true;
        }

        double now()
        {
            using namespace std::chrono;
            return duration<double>(steady_clock::now().time_since_epoch()).count();
        }

        std::vector<uint64_t> shrink(std::vector<uint64_t> best, ChildResult& res)
        {
            const double deadline = now() + 60;
            int budget = 3000;
            auto attempt = [&](const std::vector<uint64_t>& c)
            {
                if (budget-- <= 0 || now() > deadline)
                    return false;
                ChildResult r;
                if (!fails(c, r))
                    return false;
                // Only what was really used counts.
                auto used = r.choices;
                while (!used.empty() && used.back() == 0)
                    used.pop_back();
                best = used.size() <= c.size() ? used : c;
                res = std::move(r);
                return true;
            };
            bool progress = true;
            while (progress && budget > 0 && now() < deadline)
            {
                progress = false;
                for (size_t len = std::max<size_t>(1, best.size() / 2); len > 0; len /= 2)
                {
                    for (size_t i = best.size(); i-- > 0 && budget > 0;)
                    {
                        if (i + len > best.size())
                            continue;
                        auto c = best;
                        c.erase(c.begin() + long(i), c.begin() + long(i + len));
                        if (attempt(c))
                        {
                            progress = true;
                            i = std::min(i, best.size());
                        }
                    }
                }
                for (size_t i = 0; i < best.size() && budget > 0; ++i)
                {
                    if (best[i] == 0)
                        continue;
                    auto c = best;
                    c[i] = 0;
                    if (attempt(c))
                    {
                        progress = true;
                        continue;
                    }
                    if (i < best.size() && best[i] > 1)
                    {
                        c = best;
                        c[i] /= 2;
                        if (attempt(c))
                        {
                            progress = true;
                            continue;
                        }
                        c = best;
                        c[i] -= 1;
                        if (attempt(c))
                            progress = true;
                    }
                }
            }
            return best;
        }

        std::string json_string(const std::string& s)
        {
            std::string r = "\"";
            char buf[8];
            for (unsigned char c : s)
            {
                if (c == '"' || c == '\\')
                    (r += '\\') += char(c);
                else if (c == '\n')
                    r += "\\n";
                else if (c < 32 || c >= 127)
                {
                    snprintf(buf, sizeof buf, "\\u%04x", c);
                    r += buf;
                }
                else
                    r += char(c);
            }
            return r + "\"";
        }

        struct WorkerStats
        {
            uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
            std::map<std::string, uint64_t> labels, discards;
            std::unordered_set<uint64_t> hashes;
            std::vector<std::string> samples;
        };

        void save_stats(const WorkerStats& w, const std::string& path)
        {
            std::ofstream f(path, std::ios::binary);
            f << w.evaluations << ' ' << w.discarded << ' ' << w.nontrivial << '\n';
            f << w.labels.size() << '\n';
            for (auto& [k, v] : w.labels)
                f << v << ' ' << k << '\n';
            f << w.discards.size() << '\n';
            for (auto& [k, v] : w.discards)
                f << v << ' ' << k << '\n';
            f << w.hashes.size() << '\n';
            for (auto h : w.hashes)
                f << h << '\n';
            f << w.samples.size() << '\n';
            for (auto& s : w.samples)
            {
                f << s.size() << '\n';
                f.write(s.data(), std::streamsize(s.size()));
                f << '\n';
            }
        }

        void merge_stats(WorkerStats& w, const std::string& path)
        {
            std::ifstream f(path, std::ios::binary);
            uint64_t a = 0, b = 0, c = 0, n = 0;
            std::string line;
            f >> a >> b >> c;
            w.evaluations += a;
            w.discarded += b;
            w.nontrivial += c;
            for (auto* m : {&w.labels, &w.discards})
            {
                f >> n;
                for (uint64_t i = 0; i < n; ++i)
                {
                    f >> a;
                    f.get();
                    std::getline(f, line);
                    (*m)[line] += a;
                }
            }
            f >> n;
            for (uint64_t i = 0; i < n; ++i)
            {
                f >> a;
                w.hashes.insert(a);
            }
            f >> n;
            for (uint64_t i = 0; i < n; ++i)
            {
                f >> a;
                f.get();
                std::string s(a, '\0');
                f.read(s.data(), std::streamsize(a));
                f.get();
                w.samples.push_back(std::move(s));
            }
        }

        struct Args
        {
            std::string tier = "quick";
            uint64_t seed = 1;
            uint64_t cases = 0;
            std::string out, replay_dir = ".", known, replay, bytes_file, fuzz_note;
            double start_wall = 0;
            std::string extra; // extra JSON members for coverage
            int workers = 8;
            bool shrink = true;
        };

        void worker(const Args& args, int w, uint64_t total, Shared* sh,
                    const std::string& stats_path)
        {
            Src::shared_buffer = sh->choices;
            Src::shared_capacity = std::size(sh->choices);
            WorkerStats stats;
            const auto base = mix(args.seed, hash(the_property().id));
            for (uint64_t i = uint64_t(w); i < total; i += uint64_t(args.workers))
            {
                if (i > first_failure->load())
                    break;
                sh->index = i;
                sh->choices[0] = 0;
                auto src = Src::random(mix(base, i));
                Case c;
                std::string msg;
                const int st = run_case(src, c, msg);
                stats.evaluations += 1 + c.extra_evaluations;
                if (st == FAILED)
                {
                    copy_text(sh->msg, sizeof sh->msg, msg);
                    copy_text(sh->desc, sizeof sh->desc, c.desc.str());
                    sh->status = FAILED;
                    if (i < first_failure->load())
                        first_failure->store(i);
                    save_stats(stats, stats_path);
                    _exit(0);
                }
                if (st == DISCARDED)
                {
                    stats.discarded++;
                    stats.discards[msg]++;
                    continue;
                }
                for (auto& [k, v] : c.labels)
                    stats.labels[k] += v;
                if (c.nontrivial)
                {
                    stats.nontrivial++;
                    auto d = c.desc.str();
                    stats.hashes.insert(hash(d));
                    if (stats.samples.size() < 2)
                        stats.samples.push_back(d.substr(0, 1200));
                }
            }
            cpu_limit(0);
            sh->status = PASS;
            save_stats(stats, stats_path);
            _exit(0);
        }

        std::set<std::string> load_known(const std::string& path)
        {
            // Lines of JSON with "id" and "status" members; simple scanning is
            // enough for a file we write ourselves.
            std::set<std::string> ids;
            std::ifstream f(path);
            std::string line;
            while (std::getline(f, line))
            {
                if (line.find("\"status\": \"finding\"") == std::string::npos)
                    continue;
                const auto p = line.find("\"id\": \"");
                if (p == std::string::npos)
                    continue;
                const auto q = line.find('"', p + 7);
                ids.insert(line.substr(p + 7, q - p - 7));
            }
            return ids;
        }

        std::string write_replay(const Args& args, const std::string& kind,
                                 const std::string& body, const std::string& msg,
                                 const std::string& desc)
        {
            const auto path = args.replay_dir + "/" + the_property().id + "-"
                              + std::to_string(hash(body) % 1000000) + ".replay";
            std::ofstream f(path);
            f << "property " << the_property().id << "\n" << kind << " " << body << "\n"
              << "# " << "Replay: ./check.py " << the_property().id
              << " --replay " << path << "\n";
            std::istringstream s(msg + "\n--- case ---\n" + desc);
            std::string line;
            while (std::getline(s, line))
                f << "# " << line << "\n";
            return path;
        }

        int report(const std::string& path, const std::string& msg, const std::string& desc)
        {
            std::cout << "--- case ---\n" << desc << "\n--- failure ---\n" << msg << "\n"
                      << "VIOLATION property=" << the_property().id << " replay="
                      << path << std::endl;
            return 1;
        }

        void write_evidence(const Args& args, const WorkerStats& w, uint64_t scenarios,
                            int violations)
        {
            if (args.out.empty())
                return;
            std::ofstream f(args.out);
            const auto& p = the_property();
            f << "{\n \"property\": " << json_string(p.id)
              << ",\n \"tier\": " << json_string(args.tier)
              << ",\n \"seed\": " << args.seed
              << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
              << "  \"evaluations\": " << w.evaluations
              << ",\n  \"distinct_nontrivial\": " << w.hashes.size()
              << ",\n  \"nontrivial_total\": " << w.nontrivial
              << ",\n  \"discarded\": " << w.discarded
              << ",\n  \"fixed_scenarios\": " << scenarios
              << ",\n  \"rule\": " << json_string(p.rule)
              << ",\n  \"labels\": {";
            bool first = true;
            for (auto& [k, v] : w.labels)
            {
                f << (first ? "" : ", ") << json_string(k) << ": " << v;
                first = false;
            }
            f << "},\n  \"discard_reasons\": {";
            first = true;
            for (auto& [k, v] : w.discards)
            {
                f << (first ? "" : ", ") << json_string(k) << ": " << v;
                first = false;
            }
            f << "},\n  \"samples\": [";
            for (size_t i = 0; i < std::min<size_t>(w.samples.size(), 6); ++i)
                f << (i ? ",\n   " : "\n   ") << json_string(w.samples[i]);
            f << "]" << args.extra << "\n },\n \"assumptions\": [";
            for (size_t i = 0; i < p.assumptions.size(); ++i)
                f << (i ? ", " : "") << json_string(p.assumptions[i]);
            f << "],\n \"wall_s\": " << now() - args.start_wall
              << ",\n \"violations\": " << violations << "\n}\n";
        }

        ChildResult run_sequence(uint64_t seed, uint64_t first, uint64_t step, uint64_t last);

        int replay_main(const Args& args)
        {
            std::ifstream f(args.replay);
            std::string word, line;
            std::vector<uint64_t> choices;
            std::string scenario;
            while (std::getline(f, line))
            {
                std::istringstream s(line);
                s >> word;
                if (word == "choices")
                {
                    uint64_t v;
                    while (s >> v)
                        choices.push_back(v);
                }
                else if (word == "scenario")
                    s >> scenario;
                else if (word == "sequence")
                {
                    uint64_t a, b, c, d;
                    s >> a >> b >> c >> d;
                    auto r = run_sequence(a, b, c, d);
                    if (r.status == FAILED)
                        return report(args.replay, r.msg, r.desc);
                    std::cout << "the replayed sequence passes\n";
                    return 0;
                }
            }
            if (!scenario.empty())
            {
                for (auto& sc : the_property().scenarios)
                {
                    if (sc.id != scenario)
                        continue;
                    auto r = in_child([&](std::string& msg, std::string&)
                    {
                        try { sc.run(); return int(PASS); }
                        catch (const Fail& e) { msg = e.msg; return int(FAILED); }
                    });
                    if (r.status == FAILED)
                        return report(args.replay, r.msg, sc.text);
                    std::cout << "scenario " << scenario << " passes\n";
                    return 0;
                }
                std::cerr << "no such scenario: " << scenario << "\n";
                return 3;
            }
            ChildResult r;
            for (int i = 0; i < 5; ++i)
            {
                r = run_choices(choices);
                if (r.status == FAILED)
                    return report(args.replay, r.msg, r.desc);
            }
            std::cout << "the replayed case passes\n--- case ---\n" << r.desc << "\n";
            return 0;
        }

        std::string choices_text(const std::vector<uint64_t>& c)
        {
            std::string s;
            for (auto v : c)
                s += (s.empty() ? "" : " ") + std::to_string(v);
            return s;
        }

        // Runs the cases of one worker from its first one to case 'last' in
        // a single process.
        ChildResult run_sequence(uint64_t seed, uint64_t first, uint64_t step, uint64_t last)
        {
            return in_child([&](std::string& msg, std::string& desc)
            {
                const auto base = mix(seed, hash(the_property().id));
                for (uint64_t i = first; i <= last; i += step)
                {
                    Src::shared_buffer[0] = 0;
                    auto src = Src::random(mix(base, i));
                    Case c;
                    if (run_case(src, c, msg) == FAILED)
                    {
                        desc = c.desc.str();
                        return int(FAILED);
                    }
                }
                return int(PASS);
            });
        }

        int handle_sequence(const Args& args, uint64_t index)
        {
            const auto step = uint64_t(args.workers);
            const auto first = index % step;
            auto r = run_sequence(args.seed, first, step, index);
            if (r.status != FAILED)
                return 3;
            // Shorten the history that is needed.
            for (uint64_t n = 1; n < 64 && n * step <= index; n *= 2)
            {
                auto r2 = run_sequence(args.seed, index - n * step, step, index);
                if (r2.status == FAILED)
                {
                    const auto start = index - n * step;
                    const auto path = write_replay(
                        args, "sequence",
                        std::to_string(args.seed) + " " + std::to_string(start) + " "
                            + std::to_string(step) + " " + std::to_string(index),
                        r2.msg, r2.desc);
                    return report(path, r2.msg, r2.desc);
                }
            }
            const auto path = write_replay(
                args, "sequence",
                std::to_string(args.seed) + " " + std::to_string(first) + " "
                    + std::to_string(step) + " " + std::to_string(index),
                r.msg, r.desc);
            return report(path, r.msg, r.desc);
        }

        // A case that failed but doesn't fail when it is repeated: what the code
        // does depends on something that isn't part of the input. (observed is
        // empty if the process was ended for the lack of time or memory.)
        int unreliable(const Args& args, const std::vector<uint64_t>& choices,
                       const std::string& observed, const std::string& desc)
        {
            if (observed.empty())
            {
                std::cerr << "a failing case did not fail when it was repeated; "
                             "the check is inconclusive\n";
                return 3;
            }
            const auto msg = observed + "\n(This doesn't happen every time the case is run.)";
            const auto path = write_replay(args, "choices", choices_text(choices), msg, desc);
            return report(path, msg, desc);
        }

        int handle_failure(const Args& args, std::vector<uint64_t> choices,
                           const std::string& observed, uint64_t index = UINT64_MAX)
        {
            ChildResult r;
            if (!fails(choices, r))
            {
                // It may depend on what was done earlier in the same process.
                if (index != UINT64_MAX && handle_sequence(args, index) == 1)
                    return 1;
                return unreliable(args, choices, observed, r.desc);
            }
            if (!args.shrink)
            {
                const auto path = write_replay(args, "choices", choices_text(choices),
                                               r.msg, r.desc);
                return report(path, r.msg, r.desc);
            }
            const auto original = choices;
            const auto original_result = r;
            choices = shrink(choices, r);
            for (int i = 0; i < 3; ++i)
            {
                ChildResult again;
                if (!fails(choices, again))
                {
                    choices = original;
                    r = original_result;
                    break;
                }
            }
            for (int i = 0; i < 3; ++i)
            {
                ChildResult again;
                if (!fails(choices, again))
                    return unreliable(args, choices, r.msg, r.desc);
            }
            const auto path = write_replay(args, "choices", choices_text(choices),
                                           r.msg, r.desc);
            return report(path, r.msg, r.desc);
        }

        int bytes_main(const Args& args)
        {
            const auto text = read_file(args.bytes_file);
            auto r = in_child([&](std::string& msg, std::string& desc)
            {
                auto src = Src::bytes(reinterpret_cast<const uint8_t*>(text.data()), text.size());
                Case c;
                const int st = run_case(src, c, msg);
                desc = c.desc.str();
                return st;
            });
            if (r.status != FAILED)
            {
                std::cout << "the input passes\n";
                return 0;
            }
            return handle_failure(args, r.choices, r.msg);
        }
    }

    int engine_main(int argc, char** argv);

    int engine_main(int argc, char** argv)
    {
        Args args;
        args.start_wall = now();
        for (int i = 1; i + 1 < argc; i += 2)
        {
            const std::string a = argv[i], v = argv[i + 1];
            if (a == "--tier") args.tier = v;
            else if (a == "--seed") args.seed = std::stoull(v);
            else if (a == "--cases") args.cases = std::stoull(v);
            else if (a == "--out") args.out = v;
            else if (a == "--replay-dir") args.replay_dir = v;
            else if (a == "--known") args.known = v;
            else if (a == "--replay") args.replay = v;
            else if (a == "--bytes") args.bytes_file = v;
            else if (a == "--extra") args.extra = v;
            else if (a == "--tmp") tmp_dir = v;
            else if (a == "--workers") args.workers = std::stoi(v);
            else if (a == "--shrink") args.shrink = v != "0";
            else if (a == "--wall-offset") args.start_wall -= std::stod(v);
            else { std::cerr << "unknown option " << a << "\n"; return 3; }
        }
        if (tmp_dir.empty())
            tmp_dir = ".";
        if (!args.replay.empty())
            return replay_main(args);
        if (!args.bytes_file.empty())
            return bytes_main(args);

        const auto& prop = the_property();
        const auto known = load_known(args.known);
        for (auto& sc : prop.scenarios)
        {
            auto r = in_child([&](std::string& msg, std::string&)
            {
                cpu_limit(CASE_CPU_SECONDS);
                try { sc.run(); return int(PASS); }
                catch (const Fail& e) { msg = e.msg; return int(FAILED); }
                catch (const std::exception& e)
                {
                    msg = std::string("unexpected exception: ") + e.what();
                    return int(FAILED);
                }
            });
            if (r.status != FAILED)
                continue;
            if (sc.finding && known.contains(sc.id))
            {
                std::cout << "KNOWN-FINDING: property=" << prop.id << " " << sc.id
                          << ": " << sc.text << std::endl;
                continue;
            }
            const auto path = write_replay(args, "scenario", sc.id, r.msg, sc.text);
            WorkerStats none;
            write_evidence(args, none, prop.scenarios.size(), 1);
            return report(path, r.msg, sc.text);
        }

        const auto total = args.cases ? args.cases
                           : args.tier == "thorough" ? prop.thorough_cases
                                                     : prop.quick_cases;
        first_failure = new (mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0))
            std::atomic<uint64_t>(UINT64_MAX);
        std::vector<Shared*> sh;
        std::vector<pid_t> pids;
        std::cout.flush();
        for (int w = 0; w < args.workers; ++w)
        {
            sh.push_back(new_shared());
            const pid_t pid = fork();
            if (pid < 0)
            {
                perror("fork");
                return 3;
            }
            if (pid == 0)
            {
                const auto base = tmp_dir + "/w" + std::to_string(w);
                const int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(fd, 2);
                worker(args, w, total, sh.back(), base + ".stats");
            }
            pids.push_back(pid);
        }
        uint64_t failing = UINT64_MAX;
        int failing_worker = -1;
        std::string observed;
        for (int w = 0; w < args.workers; ++w)
        {
            int st = 0;
            while (waitpid(pids[size_t(w)], &st, 0) < 0 && errno == EINTR) {}
            const auto* s = sh[size_t(w)];
            if (s->status != PASS && s->index < failing)
            {
                failing = s->index;
                failing_worker = w;
                if (s->status == FAILED)
                    observed = s->msg;
                else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGVTALRM || WTERMSIG(st) == SIGKILL))
                    observed.clear();
                else
                    observed = describe_wait_status(st);
            }
        }
        WorkerStats all;
        for (int w = 0; w < args.workers; ++w)
            merge_stats(all, tmp_dir + "/w" + std::to_string(w) + ".stats");
        if (failing_worker >= 0)
        {
            const auto* s = sh[size_t(failing_worker)];
            std::vector<uint64_t> choices(s->choices + 1, s->choices + 1 + s->choices[0]);
            write_evidence(args, all, prop.scenarios.size(), 1);
            std::cout << "case " << failing << " fails: " << s->msg << "\n";
            return handle_failure(args, choices, observed, failing);
        }
        write_evidence(args, all, prop.scenarios.size(), 0);
        std::cout << prop.id << " " << args.tier << ": " << all.evaluations
                  << " evaluations, " << all.hashes.size()
                  << " distinct non-trivial cases, " << all.discarded
                  << " discarded, " << now() - args.start_wall << " s\n";
        return 0;
    }
}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    auto src = pbt::Src::bytes(data, size);
    pbt::Case c;
    try
    {
        pbt::the_property().run(src, c);
    }
    catch (const pbt::Discard&)
    {
    }
    catch (const pbt::Fail& e)
    {
        fprintf(stderr, "PROPERTY FAILURE: %s\n", e.msg.c_str());
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char** argv)
{
    return pbt::engine_main(argc, argv);
}
#endif
