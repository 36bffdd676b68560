#include "help.hpp"
#include "lookup.hpp"

namespace help
{
    using namespace spec;
    using layout::Paragraphs;

    namespace
    {
        void add(Paragraphs& out, const std::string& text)
        {
            for (auto& p : layout::paragraphs(text))
                out.push_back(p);
        }

        const std::string* custom(const Cmd& c, Text id)
        {
            if (id == Text::HELP && c.help)
                return &*c.help;
            const auto it = c.texts.find(id);
            return it == c.texts.end() ? nullptr : &it->second;
        }

        std::string bracketed(const std::string& name)
        {
            return name[0] == '<' ? name : "<" + name + ">";
        }

        std::string flag_text(const std::string& flag, const Opt& o)
        {
            if (o.argument.empty())
                return flag;
            return flag + (flag.back() == '=' ? "" : " ") + bracketed(o.argument);
        }

        std::string argument_text(const Arg& a)
        {
            if (a.name[0] == '<' || a.name[0] == '[')
                return a.name;
            std::string r;
            for (unsigned i = 0; i < a.lo; ++i)
                r += (r.empty() ? "<" : " <") + a.name + ">";
            if (a.hi > a.lo)
            {
                r += (r.empty() ? "[<" : " [<") + a.name + ">]";
                if (a.hi - a.lo > 1)
                    r += "...";
            }
            return r;
        }

        bool ends_parsing(const Opt& o)
        {
            return o.type == Type::HELP || o.type == Type::STOP || o.type == Type::EXIT;
        }

        std::string title(const Cmd& c, Text id, const char* def)
        {
            auto t = custom(c, id);
            return t ? *t : def;
        }

        Sections titled_sections(const Cmd& c)
        {
            auto r = sections(c);
            const auto at = title(c, Text::ARGUMENTS_TITLE, "ARGUMENTS"),
                       ct = title(c, Text::SUBCOMMANDS_TITLE, "COMMANDS"),
                       ot = title(c, Text::OPTIONS_TITLE, "OPTIONS");
            auto fill = [](Strings& v, const std::string& t)
            {
                for (auto& s : v)
                {
                    if (s.empty())
                        s = t;
                }
            };
            fill(r.args, at);
            fill(r.cmds, ct);
            fill(r.opts, ot);
            return r;
        }
    }

    Sections sections(const Cmd& c)
    {
        Sections r;
        r.args.resize(c.args.size());
        r.opts.resize(c.opts.size());
        r.cmds.resize(c.cmds.size());
        std::string current;
        auto place = [&](const Common& x, std::string& section)
        {
            if (x.cur_section)
                current = *x.cur_section;
            section = x.section && !x.section->empty() ? *x.section : current;
        };
        auto order = c.order;
        if (order.empty())
        {
            for (size_t i = 0; i < c.args.size(); ++i)
                order.emplace_back('a', int(i));
            for (size_t i = 0; i < c.opts.size(); ++i)
            {
                if (!c.opts[i].generated)
                    order.emplace_back('o', int(i));
            }
            for (size_t i = 0; i < c.cmds.size(); ++i)
                order.emplace_back('c', int(i));
        }
        for (auto [kind, index] : order)
        {
            const auto i = size_t(index);
            if (kind == 'a')
                place(c.args[i], r.args[i]);
            else if (kind == 'o')
                place(c.opts[i], r.opts[i]);
            else
                place(c.cmds[i], r.cmds[i]);
        }
        current = c.last_section.value_or(current);
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            if (c.opts[i].generated)
                r.opts[i] = current;
        }
        return r;
    }

    const Cmd* find(const Parser& finished, const Strings& path, std::string& full_name)
    {
        const Cmd* c = &finished.cmd;
        full_name = c->name;
        for (auto& name : path)
        {
            c = lookup::find_command(*c, name, finished.ci);
            if (!c)
                return nullptr;
            full_name += " " + c->name;
        }
        return c;
    }

    Paragraphs usage(const Cmd& c, const std::string& full_name, bool error)
    {
        Paragraphs r;
        if (error)
        {
            if (auto t = custom(c, Text::ERROR_USAGE))
            {
                add(r, *t);
                return r;
            }
        }
        const auto text = custom(c, Text::USAGE);
        if (text && text->empty())
            return r;
        add(r, title(c, Text::USAGE_TITLE, "USAGE"));
        if (text)
        {
            add(r, *text);
            return r;
        }
        for (auto& o : c.opts)
        {
            if (!(o.vis() & VIS_USAGE) || !ends_parsing(o))
                continue;
            auto flag = o.flags[0];
            for (size_t i = o.flags.size(); i-- > 0;)
            {
                if (o.flags[i].size() > 2)
                    flag = o.flags[i];
            }
            std::string line = full_name + " ";
            line += o.mandatory || ends_parsing(o) ? flag_text(flag, o) : "[" + flag_text(flag, o) + "]";
            add(r, line);
        }
        std::string line = full_name;
        for (auto& o : c.opts)
        {
            if (!(o.vis() & VIS_USAGE) || ends_parsing(o))
                continue;
            line += o.mandatory ? " " + flag_text(o.flags[0], o) : " [" + flag_text(o.flags[0], o) + "]";
        }
        for (auto& a : c.args)
        {
            if (a.vis() & VIS_USAGE)
                line += " " + argument_text(a);
        }
        if (!c.cmds.empty())
        {
            const bool required = c.require.value_or(true);
            line += required ? " " : " [";
            bool first = true;
            for (auto& s : c.cmds)
            {
                if (!(s.vis() & VIS_USAGE))
                    continue;
                line += (first ? "" : "|") + s.name;
                first = false;
            }
            line += required ? "" : "]";
        }
        add(r, line);
        return r;
    }

    Paragraphs text(const Cmd& c, const std::string& full_name, bool beside)
    {
        Paragraphs r;
        if (auto t = custom(c, Text::INITIAL_TEXT))
            add(r, *t);
        for (auto& p : usage(c, full_name, false))
            r.push_back(p);
        if (auto t = custom(c, Text::ABOUT); t && !t->empty())
            add(r, *t);
        else if (auto h = custom(c, Text::HELP))
            add(r, *h);

        const auto where = titled_sections(c);
        std::vector<std::pair<std::string, Paragraphs>> blocks;
        auto item = [&](const Common& x, const std::string& section, const std::string& label,
                        const std::string& help)
        {
            if (!(x.vis() & VIS_TEXT))
                return;
            size_t i = 0;
            while (i < blocks.size() && blocks[i].first != section)
                ++i;
            if (i == blocks.size())
                blocks.push_back({section, {}});
            auto& out = blocks[i].second;
            out.push_back(layout::words(label));
            if (help.empty())
                return;
            auto t = layout::paragraphs(help);
            if (beside)
            {
                out.back().insert(out.back().end(), t[0].begin(), t[0].end());
                t.erase(t.begin());
            }
            out.insert(out.end(), t.begin(), t.end());
        };
        for (size_t i = 0; i < c.args.size(); ++i)
            item(c.args[i], where.args[i], argument_text(c.args[i]), c.args[i].help.value_or(""));
        for (size_t i = 0; i < c.cmds.size(); ++i)
        {
            auto h = custom(c.cmds[i], Text::HELP);
            item(c.cmds[i], where.cmds[i], c.cmds[i].name, h ? *h : "");
        }
        for (size_t i = 0; i < c.opts.size(); ++i)
        {
            std::string label;
            for (auto& f : c.opts[i].flags)
                label += (label.empty() ? "" : ", ") + flag_text(f, c.opts[i]);
            item(c.opts[i], where.opts[i], label, c.opts[i].help.value_or(""));
        }
        for (auto& [section, block] : blocks)
        {
            add(r, section);
            r.insert(r.end(), block.begin(), block.end());
        }
        if (auto t = custom(c, Text::FINAL_TEXT))
            add(r, *t);
        return r;
    }
}
