// Naive look-ups in declarations: linear scans that do not depend on any
// ordering or index.
#pragma once
#include "spec.hpp"

namespace lookup
{
    inline char lower(char c)
    {
        return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c;
    }

    inline std::string lower(std::string s)
    {
        for (auto& c : s)
            c = lower(c);
        return s;
    }

    inline bool equal(const std::string& a, const std::string& b, bool ci)
    {
        return ci ? lower(a) == lower(b) : a == b;
    }

    inline bool is_prefix(const std::string& prefix, const std::string& s, bool ci)
    {
        return prefix.size() <= s.size()
               && equal(prefix, s.substr(0, prefix.size()), ci);
    }

    inline const spec::Cmd* find_command(const spec::Cmd& c, const std::string& name, bool ci)
    {
        for (auto& sub : c.cmds)
        {
            if (equal(sub.name, name, ci))
                return &sub;
        }
        return nullptr;
    }

    /// Index of the option that has exactly this flag, or that has the only
    /// flag it is a prefix of; -1 if there is none.
    inline int find_flag(const spec::Cmd& c, const std::string& flag, bool abbrev, bool ci)
    {
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            for (auto& f : c.opts[i].flags)
            {
                if (equal(f, flag, ci))
                    return int(i);
            }
        }
        if (!abbrev)
            return -1;
        int found = -1, n = 0;
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            for (auto& f : c.opts[i].flags)
            {
                if (is_prefix(flag, f, ci))
                {
                    found = int(i);
                    ++n;
                }
            }
        }
        return n == 1 ? found : -1;
    }

    /// As find_flag, but "--flag=" also selects "--flag" if it has an argument.
    inline int find_option(const spec::Cmd& c, const std::string& flag, bool abbrev, bool ci)
    {
        int i = find_flag(c, flag, abbrev, ci);
        if (i < 0 && flag.size() > 2 && flag.back() == '=')
        {
            i = find_flag(c, flag.substr(0, flag.size() - 1), abbrev, ci);
            if (i >= 0 && c.opts[size_t(i)].argument.empty())
                i = -1;
        }
        return i;
    }
}
