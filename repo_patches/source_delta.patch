From 9cf6513e103227a4e87faae2fd636641ffa016f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 01/40] fix: don't report too few arguments when omitted
 arguments are optional

---
 single_src/Argos/Argos.cpp    | 9 ++++++---
 src/Argos/ArgumentCounter.cpp | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 071cdaa..d0a27d3 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -506,9 +506,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (auto i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index de1616c..5bd1fc7 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -121,9 +121,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (auto i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
-- 
2.43.0


From 86970a7c8adeaada354e648ed5c443466e4939b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 02/40] fix: don't repeat values as empty arguments with SLASH
 and DASH options

---
 single_src/Argos/Argos.cpp   | 2 +-
 src/Argos/OptionIterator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d0a27d3..dd986f9 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4525,7 +4525,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
diff --git a/src/Argos/OptionIterator.cpp b/src/Argos/OptionIterator.cpp
index 27b0d71..2866430 100644
--- a/src/Argos/OptionIterator.cpp
+++ b/src/Argos/OptionIterator.cpp
@@ -78,7 +78,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
-- 
2.43.0


From 533799743e599cc6f99b1ea9e67eb3ba87b7c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 03/40] fix: order flags consistently when ignoring case

---
 single_src/Argos/Argos.cpp    | 10 ++--------
 src/Argos/StringUtilities.cpp | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index dd986f9..e502da4 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5655,15 +5655,9 @@ namespace argos
         return starts_with(str, prefix);
     }
 
-    int compare_ci(int c1, int c2)
+    int compare_ci(char c1, char c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return int(uint8_t(to_lower(c1))) - int(uint8_t(to_lower(c2)));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index d992c99..beb972b 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -61,15 +61,9 @@ namespace argos
         return starts_with(str, prefix);
     }
 
-    int compare_ci(int c1, int c2)
+    int compare_ci(char c1, char c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return int(uint8_t(to_lower(c1))) - int(uint8_t(to_lower(c2)));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
-- 
2.43.0


From 48f1f8fa2846175e33f0953951b92e7b94a01c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 04/40] fix: keep the version when an ArgumentParser is copied
 internally

---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index e502da4..647c32b 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1787,6 +1787,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 61ab47d..e5ca061 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -26,6 +26,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
-- 
2.43.0


From 5d6e7bbc19cfaffcb2c3f5f8272ba321f4b012dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 05/40] fix: copy the visibility of commands

---
 single_src/Argos/Argos.cpp | 4 ++++
 src/Argos/CommandData.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 647c32b..7d5f83c 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3027,6 +3027,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -3052,6 +3053,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -3073,6 +3075,7 @@ namespace argos
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
+        visibility = rhs.visibility;
         id = rhs.id;
         argument_id = rhs.argument_id;
 
@@ -3109,6 +3112,7 @@ namespace argos
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = std::move(rhs.section);
+        visibility = rhs.visibility;
         id = rhs.id;
         argument_id = rhs.argument_id;
         return *this;
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 16523d0..f8b2bcc 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -24,6 +24,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -49,6 +50,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -70,6 +72,7 @@ namespace argos
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
+        visibility = rhs.visibility;
         id = rhs.id;
         argument_id = rhs.argument_id;
 
@@ -106,6 +109,7 @@ namespace argos
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = std::move(rhs.section);
+        visibility = rhs.visibility;
         id = rhs.id;
         argument_id = rhs.argument_id;
         return *this;
-- 
2.43.0


From e80b4adde509e6cc0af265eee36aed69837d35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 06/40] fix: assign the initial values of sub-command options

---
 single_src/Argos/Argos.cpp         | 29 +++++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.cpp | 27 +++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 7d5f83c..63d218f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1047,6 +1047,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void assign_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
@@ -1290,16 +1292,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        assign_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -1561,6 +1554,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        assign_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -1574,6 +1568,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::assign_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1034c88..39c1979 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -51,16 +51,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        assign_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -322,6 +313,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        assign_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -335,6 +327,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::assign_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index e81b04c..c033bb0 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -74,6 +74,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void assign_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
-- 
2.43.0


From 9e3272615fa2f1917f5f9f68f7a690a4e523b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 07/40] fix: check the mandatory options of every command that
 was given

---
 single_src/Argos/Argos.cpp         | 32 +++++++++++++++++++++++++++---
 src/Argos/ArgumentIteratorImpl.cpp | 28 +++++++++++++++++++++++---
 src/Argos/ArgumentIteratorImpl.hpp |  4 ++++
 3 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 63d218f..48a8f4b 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1067,6 +1067,10 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        void error(const std::string& message, const CommandData& command);
+
+        bool has_all_mandatory_options(size_t first_index);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
@@ -1517,6 +1521,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -1654,7 +1660,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(0))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -1742,9 +1748,15 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
+    {
+        error(message, *m_command);
+    }
+
+    void ArgumentIteratorImpl::error(const std::string& message,
+                                     const CommandData& command)
     {
         if (!message.empty())
-            write_error_message(*m_data, *m_command, message);
+            write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
             exit(m_data->parser_settings.error_exit_code);
@@ -1755,6 +1767,20 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options(size_t first_index)
+    {
+        for (size_t i = m_parsed_args.size(); i-- > first_index;)
+        {
+            if (!has_all_mandatory_options(*m_parsed_args[i],
+                                           *m_parsed_args[i]->command()))
+            {
+                return false;
+            }
+        }
+
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
@@ -1766,7 +1792,7 @@ namespace argos
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
-                error("Mandatory option is missing: " + flags);
+                error("Mandatory option is missing: " + flags, command);
                 return false;
             }
         }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 39c1979..201c61d 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -276,6 +276,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -413,7 +415,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(0))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -501,9 +503,15 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
+    {
+        error(message, *m_command);
+    }
+
+    void ArgumentIteratorImpl::error(const std::string& message,
+                                     const CommandData& command)
     {
         if (!message.empty())
-            write_error_message(*m_data, *m_command, message);
+            write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
             exit(m_data->parser_settings.error_exit_code);
@@ -514,6 +522,20 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options(size_t first_index)
+    {
+        for (size_t i = m_parsed_args.size(); i-- > first_index;)
+        {
+            if (!has_all_mandatory_options(*m_parsed_args[i],
+                                           *m_parsed_args[i]->command()))
+            {
+                return false;
+            }
+        }
+
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
@@ -525,7 +547,7 @@ namespace argos
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
-                error("Mandatory option is missing: " + flags);
+                error("Mandatory option is missing: " + flags, command);
                 return false;
             }
         }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index c033bb0..f07c973 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -94,6 +94,10 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        void error(const std::string& message, const CommandData& command);
+
+        bool has_all_mandatory_options(size_t first_index);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
-- 
2.43.0


From cda2856ee97b06c050e10600ed298325cbbb3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 08/40] fix: set the result code of every command that was
 given

---
 single_src/Argos/Argos.cpp         | 15 +++++++++++++--
 src/Argos/ArgumentIteratorImpl.cpp | 13 +++++++++++--
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 48a8f4b..905de94 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1063,6 +1063,8 @@ namespace argos
 
         void reactivate_multi_command_parent(size_t index);
 
+        void set_breaking_option(const OptionData& option);
+
         void update_arguments(const std::vector<std::string>& args);
 
         void error(const std::string& message = {});
@@ -1448,11 +1450,11 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -1725,12 +1727,21 @@ namespace argos
 
     void ArgumentIteratorImpl::reactivate_multi_command_parent(size_t index)
     {
+        for (auto i = index + 1; i < m_parsed_args.size(); ++i)
+            m_parsed_args[i]->set_result_code(ParserResultCode::SUCCESS);
         m_parsed_args.resize(index + 1);
         m_command = m_parsed_args.back()->command();
         m_argument_counter = {};
         m_state = State::ARGUMENTS_ONLY;
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::set_breaking_option(const OptionData& option)
+    {
+        for (const auto& parsed_args : m_parsed_args)
+            parsed_args->set_breaking_option(&option);
+    }
+
     void ArgumentIteratorImpl::update_arguments(
         const std::vector<std::string>& args)
     {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 201c61d..afc0a0f 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -203,11 +203,11 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -480,12 +480,21 @@ namespace argos
 
     void ArgumentIteratorImpl::reactivate_multi_command_parent(size_t index)
     {
+        for (auto i = index + 1; i < m_parsed_args.size(); ++i)
+            m_parsed_args[i]->set_result_code(ParserResultCode::SUCCESS);
         m_parsed_args.resize(index + 1);
         m_command = m_parsed_args.back()->command();
         m_argument_counter = {};
         m_state = State::ARGUMENTS_ONLY;
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::set_breaking_option(const OptionData& option)
+    {
+        for (const auto& parsed_args : m_parsed_args)
+            parsed_args->set_breaking_option(&option);
+    }
+
     void ArgumentIteratorImpl::update_arguments(
         const std::vector<std::string>& args)
     {
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index f07c973..697bd33 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -90,6 +90,8 @@ namespace argos
 
         void reactivate_multi_command_parent(size_t index);
 
+        void set_breaking_option(const OptionData& option);
+
         void update_arguments(const std::vector<std::string>& args);
 
         void error(const std::string& message = {});
-- 
2.43.0


From a29a6afe0ba3f70ec7d770846252e03f601dbb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 09/40] fix: throw when parse(argc, argv) is called on an
 invalid ArgumentParser

---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 905de94..30a985f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1927,6 +1927,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index e5ca061..7e3a65e 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -120,6 +120,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-- 
2.43.0


From 234d3dba306c963dd79951279c5d341075d00a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 10/40] fix: throw when Command::copy_from is given a command
 that has been moved-from

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/Command.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 30a985f..b683385 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3033,7 +3033,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
diff --git a/src/Argos/Command.cpp b/src/Argos/Command.cpp
index e5993f4..1402b12 100644
--- a/src/Argos/Command.cpp
+++ b/src/Argos/Command.cpp
@@ -167,7 +167,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
-- 
2.43.0


From 011698a410cfe3e6334e88c3430e8729087f3e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 11/40] fix: report an error when the index of
 ArgumentValues::value is too great

---
 single_src/Argos/Argos.cpp   | 7 +++++++
 src/Argos/ArgumentValues.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index b683385..d2c810e 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -2692,6 +2692,13 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
+        if (index >= m_values.size())
+        {
+            error("Index is too great: " + std::to_string(index)
+                  + ". There are only " + std::to_string(m_values.size())
+                  + " values.");
+        }
+
         const auto& [value, arg_id] = m_values.at(index);
         return {value, m_args, m_value_id, arg_id};
     }
diff --git a/src/Argos/ArgumentValues.cpp b/src/Argos/ArgumentValues.cpp
index cea150c..40822ba 100644
--- a/src/Argos/ArgumentValues.cpp
+++ b/src/Argos/ArgumentValues.cpp
@@ -151,6 +151,13 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
+        if (index >= m_values.size())
+        {
+            error("Index is too great: " + std::to_string(index)
+                  + ". There are only " + std::to_string(m_values.size())
+                  + " values.");
+        }
+
         const auto& [value, arg_id] = m_values.at(index);
         return {value, m_args, m_value_id, arg_id};
     }
-- 
2.43.0


From 43205021d7dc7fae0496d3982de4320e13d17fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 12/40] fix: don't count arguments as options in
 count_arguments

---
 single_src/Argos/Argos.cpp         | 16 +++++++++++-----
 src/Argos/ArgumentIteratorImpl.cpp | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d2c810e..7ae02c9 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1606,10 +1606,16 @@ namespace argos
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         for (auto arg = it.next(); arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
+            const bool has_prefix = is_option(
+                *arg, m_data->parser_settings.option_style);
+            const OptionData* option = nullptr;
+            if (has_prefix)
+            {
+                option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+            }
 
             if (option)
             {
@@ -1634,7 +1640,7 @@ namespace argos
                 if (arguments_only)
                     break;
             }
-            else if (!is_option(*arg, m_data->parser_settings.option_style))
+            else if (!has_prefix)
             {
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index afc0a0f..1be8471 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -359,10 +359,16 @@ namespace argos
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         for (auto arg = it.next(); arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
+            const bool has_prefix = is_option(
+                *arg, m_data->parser_settings.option_style);
+            const OptionData* option = nullptr;
+            if (has_prefix)
+            {
+                option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+            }
 
             if (option)
             {
@@ -387,7 +393,7 @@ namespace argos
                 if (arguments_only)
                     break;
             }
-            else if (!is_option(*arg, m_data->parser_settings.option_style))
+            else if (!has_prefix)
             {
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
-- 
2.43.0


From 6dd624823090b70f79ab5f3b1d2dc75a03ff030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 13/40] fix: don't count the arguments after an EXIT option

---
 single_src/Argos/Argos.cpp         | 1 +
 src/Argos/ArgumentIteratorImpl.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 7ae02c9..a9c8f2d 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1626,6 +1626,7 @@ namespace argos
 
                 switch (option->type)
                 {
+                case OptionType::EXIT:
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1be8471..a31ea95 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -379,6 +379,7 @@ namespace argos
 
                 switch (option->type)
                 {
+                case OptionType::EXIT:
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
-- 
2.43.0


From 703cf3a283ab85afc259a83c7703be6b9a15065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 14/40] fix: count arguments correctly when a callback has
 added new arguments

---
 single_src/Argos/Argos.cpp         | 30 +++++++++++++++++++++---------
 src/Argos/ArgumentIteratorImpl.cpp | 25 +++++++++++++++++--------
 src/Argos/ArgumentIteratorImpl.hpp |  5 ++++-
 3 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index a9c8f2d..081a4ca 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1051,13 +1051,16 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t initial_count = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_multi_command_sibling(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
@@ -1562,6 +1565,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         assign_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -1572,7 +1576,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -1599,12 +1602,15 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t initial_count) const
     {
-        size_t result = 0;
+        size_t result = initial_count;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        auto arg = m_state == State::ARGUMENTS_ONLY
+                       ? std::optional<std::string>()
+                       : it.next();
+        for (; arg; arg = it.next())
         {
             const bool has_prefix = is_option(
                 *arg, m_data->parser_settings.option_style);
@@ -1646,19 +1652,19 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (result >= min_count && find_multi_command_sibling(*arg).first)
                     return result;
 
                 ++result;
             }
         }
 
-        for (auto arg = it.next_value(); arg; arg = it.next_value())
+        for (arg = it.next_value(); arg; arg = it.next_value())
         {
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (result >= min_count && find_multi_command_sibling(*arg).first)
                 return result;
 
             ++result;
@@ -1720,6 +1726,12 @@ namespace argos
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
 
+        return find_multi_command_sibling(name);
+    }
+
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_multi_command_sibling(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -1760,7 +1772,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
+        auto total_count = count_arguments(current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              current_count);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index a31ea95..e1044c8 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -315,6 +315,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         assign_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -325,7 +326,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -352,12 +352,15 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t initial_count) const
     {
-        size_t result = 0;
+        size_t result = initial_count;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        auto arg = m_state == State::ARGUMENTS_ONLY
+                       ? std::optional<std::string>()
+                       : it.next();
+        for (; arg; arg = it.next())
         {
             const bool has_prefix = is_option(
                 *arg, m_data->parser_settings.option_style);
@@ -399,19 +402,19 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (result >= min_count && find_multi_command_sibling(*arg).first)
                     return result;
 
                 ++result;
             }
         }
 
-        for (auto arg = it.next_value(); arg; arg = it.next_value())
+        for (arg = it.next_value(); arg; arg = it.next_value())
         {
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (result >= min_count && find_multi_command_sibling(*arg).first)
                 return result;
 
             ++result;
@@ -473,6 +476,12 @@ namespace argos
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
 
+        return find_multi_command_sibling(name);
+    }
+
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_multi_command_sibling(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -513,7 +522,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
+        auto total_count = count_arguments(current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              current_count);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 697bd33..6a49380 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -78,13 +78,16 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t initial_count = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_multi_command_sibling(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
-- 
2.43.0


From 0227d5af108ecef7b3c0788429afc2f058c8e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 15/40] fix: use the full name of nested sub-commands in
 messages and help texts

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandData.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 081a4ca..14d2c8b 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3522,7 +3522,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index f8b2bcc..69ff95f 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -446,7 +446,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
-- 
2.43.0


From 4e945625c461ec9ad109ac9360141176ec15c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 16/40] fix: don't produce an empty argument after splitting
 concatenated flags

---
 single_src/Argos/Argos.cpp           | 1 +
 src/Argos/StandardOptionIterator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 14d2c8b..160d74d 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5669,6 +5669,7 @@ namespace argos
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
+        m_pos = std::string::npos;
     }
 }
 
diff --git a/src/Argos/StandardOptionIterator.cpp b/src/Argos/StandardOptionIterator.cpp
index e950414..ba6c274 100644
--- a/src/Argos/StandardOptionIterator.cpp
+++ b/src/Argos/StandardOptionIterator.cpp
@@ -126,5 +126,6 @@ namespace argos
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
+        m_pos = std::string::npos;
     }
 }
-- 
2.43.0


From 36c4718e82f66d5ccb0106ce5c36d1adc0558e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 17/40] fix: don't go out of range when a text ends with a
 carriage return

---
 single_src/Argos/Argos.cpp  | 2 +-
 src/Argos/TextFormatter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 160d74d..983e96c 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5908,7 +5908,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ff39e22..ba3225b 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -22,7 +22,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
-- 
2.43.0


From c063c34061b18d70581616cfc236ac1528e058d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 18/40] fix: let all arguments and options that are connected
 by names share the same value

---
 single_src/Argos/Argos.cpp | 77 +++++++++++++++++++++-----------------
 src/Argos/CommandData.cpp  | 77 +++++++++++++++++++++-----------------
 2 files changed, 86 insertions(+), 68 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 983e96c..9273c19 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3412,11 +3412,13 @@ namespace argos
         {
             struct InternalIdMaker
             {
+                const CommandData& cmd;
                 std::map<std::string_view, ValueId> explicit_ids;
                 int id;
 
-                explicit InternalIdMaker(ValueId start_id)
-                    : id(start_id)
+                InternalIdMaker(const CommandData& cmd, ValueId start_id)
+                    : cmd(cmd),
+                      id(start_id)
                 {
                 }
 
@@ -3428,59 +3430,66 @@ namespace argos
                     return it->second;
                 }
 
-                ValueId get_value_id(std::string_view name)
+                ValueId get_value_id(const std::vector<std::string_view>& names)
                 {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    std::optional<ValueId> result;
+                    for (const auto& name : names)
+                    {
+                        const auto value_id = find_value_id(name);
+                        if (!value_id)
+                            continue;
+                        if (!result)
+                            result = value_id;
+                        else if (*value_id != *result)
+                            replace_value_id(*value_id, *result);
+                    }
+                    if (!result)
+                        result = ValueId(++id);
+                    for (const auto& name : names)
+                        explicit_ids.emplace(name, *result);
+                    return *result;
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace_value_id(ValueId old_id, ValueId new_id)
                 {
-                    for (const auto& name : names)
+                    for (auto& [_, value_id] : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == old_id)
+                            value_id = new_id;
+                    }
+                    for (const auto& a : cmd.arguments)
+                    {
+                        if (a->value_id == old_id)
+                            a->value_id = new_id;
+                    }
+                    for (const auto& o : cmd.options)
+                    {
+                        if (o->value_id == old_id)
+                            o->value_id = new_id;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
             int argument_id = argument_id_offset;
-            InternalIdMaker id_maker(value_id_offset);
+            InternalIdMaker id_maker(cmd, value_id_offset);
             for (const auto& a : cmd.arguments)
             {
                 a->argument_id = ArgumentId(++argument_id);
+                std::vector<std::string_view> names{a->name};
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    names.emplace_back(a->alias);
+                a->value_id = id_maker.get_value_id(names);
             }
             for (const auto& o : cmd.options)
             {
                 o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                o->value_id = id_maker.get_value_id(names);
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 69ff95f..d2e8c46 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -336,11 +336,13 @@ namespace argos
         {
             struct InternalIdMaker
             {
+                const CommandData& cmd;
                 std::map<std::string_view, ValueId> explicit_ids;
                 int id;
 
-                explicit InternalIdMaker(ValueId start_id)
-                    : id(start_id)
+                InternalIdMaker(const CommandData& cmd, ValueId start_id)
+                    : cmd(cmd),
+                      id(start_id)
                 {
                 }
 
@@ -352,59 +354,66 @@ namespace argos
                     return it->second;
                 }
 
-                ValueId get_value_id(std::string_view name)
+                ValueId get_value_id(const std::vector<std::string_view>& names)
                 {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    std::optional<ValueId> result;
+                    for (const auto& name : names)
+                    {
+                        const auto value_id = find_value_id(name);
+                        if (!value_id)
+                            continue;
+                        if (!result)
+                            result = value_id;
+                        else if (*value_id != *result)
+                            replace_value_id(*value_id, *result);
+                    }
+                    if (!result)
+                        result = ValueId(++id);
+                    for (const auto& name : names)
+                        explicit_ids.emplace(name, *result);
+                    return *result;
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace_value_id(ValueId old_id, ValueId new_id)
                 {
-                    for (const auto& name : names)
+                    for (auto& [_, value_id] : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == old_id)
+                            value_id = new_id;
+                    }
+                    for (const auto& a : cmd.arguments)
+                    {
+                        if (a->value_id == old_id)
+                            a->value_id = new_id;
+                    }
+                    for (const auto& o : cmd.options)
+                    {
+                        if (o->value_id == old_id)
+                            o->value_id = new_id;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
             int argument_id = argument_id_offset;
-            InternalIdMaker id_maker(value_id_offset);
+            InternalIdMaker id_maker(cmd, value_id_offset);
             for (const auto& a : cmd.arguments)
             {
                 a->argument_id = ArgumentId(++argument_id);
+                std::vector<std::string_view> names{a->name};
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    names.emplace_back(a->alias);
+                a->value_id = id_maker.get_value_id(names);
             }
             for (const auto& o : cmd.options)
             {
                 o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                o->value_id = id_maker.get_value_id(names);
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
-- 
2.43.0


From 2d4d582d850b4cceb09e6ba24f4a5f64284589b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 19/40] fix: get the program name from argv in every overload
 of parse and make_iterator

---
 single_src/Argos/Argos.cpp   | 25 +++++++++++++++++--------
 src/Argos/ArgumentParser.cpp | 25 +++++++++++++++++--------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 9273c19..61703ef 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1858,6 +1858,12 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void set_default_name(ParserData& data, const char* path)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(path) != 0)
+                data.command.name = get_base_name(path);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -1950,20 +1956,18 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        set_default_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return parse_arguments({argv + 1, argv + argc}, std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -1982,6 +1986,8 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        check_data();
+        set_default_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -1989,7 +1995,10 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        check_data();
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return make_argument_iterator({argv + 1, argv + argc}, std::move(data));
     }
 
     ArgumentIterator
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 7e3a65e..6336b5f 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -32,6 +32,12 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void set_default_name(ParserData& data, const char* path)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(path) != 0)
+                data.command.name = get_base_name(path);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -124,20 +130,18 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        set_default_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return parse_arguments({argv + 1, argv + argc}, std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -156,6 +160,8 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        check_data();
+        set_default_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -163,7 +169,10 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        check_data();
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return make_argument_iterator({argv + 1, argv + argc}, std::move(data));
     }
 
     ArgumentIterator
-- 
2.43.0


From 9196a326f0ded5b4873ba2fd54e0af64895d435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 20/40] fix: give the arguments and options of sibling commands
 different ids

---
 single_src/Argos/Argos.cpp | 23 ++++++++++++++---------
 src/Argos/CommandData.cpp  | 14 +++++++++-----
 src/Argos/CommandData.hpp  |  9 +++++----
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 61703ef..e398b96 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -331,10 +331,11 @@ namespace argos
      * Finish the initialization of this command and any subcommands, and
      * make them ready for parsing arguments.
      */
-    void finish_initialization(CommandData& cmd,
-                               const ParserData& data,
-                               ValueId start_id = {},
-                               ArgumentId argument_id = {});
+    std::pair<ValueId, ArgumentId>
+    finish_initialization(CommandData& cmd,
+                          const ParserData& data,
+                          ValueId start_id = {},
+                          ArgumentId argument_id = {});
 
     struct ParserSettings;
 
@@ -3521,10 +3522,11 @@ namespace argos
     }
 
     // NOLINT(*-no-recursion)
-    void finish_initialization(CommandData& cmd,
-                               const ParserData& data,
-                               ValueId start_id,
-                               ArgumentId argument_id)
+    std::pair<ValueId, ArgumentId>
+    finish_initialization(CommandData& cmd,
+                          const ParserData& data,
+                          ValueId start_id,
+                          ArgumentId argument_id)
     {
         if (cmd.full_name.empty())
             cmd.full_name = cmd.name;
@@ -3541,8 +3543,11 @@ namespace argos
         for (auto& c : cmd.commands)
         {
             c->full_name = cmd.full_name + ' ' + c->name;
-            finish_initialization(*c, data, start_id, argument_id);
+            std::tie(start_id, argument_id) = finish_initialization(
+                *c, data, start_id, argument_id);
         }
+
+        return {start_id, argument_id};
     }
 }
 
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index d2e8c46..6f1f257 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -436,10 +436,11 @@ namespace argos
     }
 
     // NOLINT(*-no-recursion)
-    void finish_initialization(CommandData& cmd,
-                               const ParserData& data,
-                               ValueId start_id,
-                               ArgumentId argument_id)
+    std::pair<ValueId, ArgumentId>
+    finish_initialization(CommandData& cmd,
+                          const ParserData& data,
+                          ValueId start_id,
+                          ArgumentId argument_id)
     {
         if (cmd.full_name.empty())
             cmd.full_name = cmd.name;
@@ -456,7 +457,10 @@ namespace argos
         for (auto& c : cmd.commands)
         {
             c->full_name = cmd.full_name + ' ' + c->name;
-            finish_initialization(*c, data, start_id, argument_id);
+            std::tie(start_id, argument_id) = finish_initialization(
+                *c, data, start_id, argument_id);
         }
+
+        return {start_id, argument_id};
     }
 }
diff --git a/src/Argos/CommandData.hpp b/src/Argos/CommandData.hpp
index 5f05d65..66f6547 100644
--- a/src/Argos/CommandData.hpp
+++ b/src/Argos/CommandData.hpp
@@ -80,10 +80,11 @@ namespace argos
      * Finish the initialization of this command and any subcommands, and
      * make them ready for parsing arguments.
      */
-    void finish_initialization(CommandData& cmd,
-                               const ParserData& data,
-                               ValueId start_id = {},
-                               ArgumentId argument_id = {});
+    std::pair<ValueId, ArgumentId>
+    finish_initialization(CommandData& cmd,
+                          const ParserData& data,
+                          ValueId start_id = {},
+                          ArgumentId argument_id = {});
 
     struct ParserSettings;
 
-- 
2.43.0


From 489ca30153d3bc20efb2cd0ccd3be5f7f0153187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:30 +0000
Subject: [PATCH 21/40] fix: report an error when a negative number is read as
 an unsigned type

---
 single_src/Argos/Argos.cpp | 12 +++++++++---
 src/Argos/ParseValue.cpp   | 13 ++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index e398b96..08a62f4 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4793,9 +4793,15 @@ namespace argos
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_int<T>(str.c_str(), &endp, base);
-            if (endp == str.c_str() + str.size() && errno == 0)
-                return value;
-            return {};
+            if (endp != str.c_str() + str.size() || errno != 0)
+                return {};
+            // strtoul and strtoull wrap negative numbers.
+            if constexpr (std::is_unsigned_v<T>)
+            {
+                if (value != 0 && str.find('-') != std::string::npos)
+                    return {};
+            }
+            return value;
         }
     }
 
diff --git a/src/Argos/ParseValue.cpp b/src/Argos/ParseValue.cpp
index 6a58cff..7e4ca51 100644
--- a/src/Argos/ParseValue.cpp
+++ b/src/Argos/ParseValue.cpp
@@ -11,6 +11,7 @@
 #include <cerrno>
 #include <climits>
 #include <cstdlib>
+#include <type_traits>
 #include "StringUtilities.hpp"
 
 namespace argos
@@ -54,9 +55,15 @@ namespace argos
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_int<T>(str.c_str(), &endp, base);
-            if (endp == str.c_str() + str.size() && errno == 0)
-                return value;
-            return {};
+            if (endp != str.c_str() + str.size() || errno != 0)
+                return {};
+            // strtoul and strtoull wrap negative numbers.
+            if constexpr (std::is_unsigned_v<T>)
+            {
+                if (value != 0 && str.find('-') != std::string::npos)
+                    return {};
+            }
+            return value;
         }
     }
 
-- 
2.43.0


From e3bbd55e092353f65972c2e541ffad204ed187d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 22/40] fix: report the definition that produced a value when
 it is read by view

ParsedArguments::value(view) and ParsedArgumentsBuilder::value(view) gave the
view itself as the source of the value, also when the value came from another
option or argument that is linked to it.
---
 single_src/Argos/Argos.cpp           | 4 ++--
 src/Argos/ParsedArguments.cpp        | 2 +-
 src/Argos/ParsedArgumentsBuilder.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 08a62f4..4ffd680 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4973,7 +4973,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
@@ -5215,7 +5215,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index dc9881c..740c2c3 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -70,7 +70,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArgumentsBuilder.cpp b/src/Argos/ParsedArgumentsBuilder.cpp
index c189735..fac5a32 100644
--- a/src/Argos/ParsedArgumentsBuilder.cpp
+++ b/src/Argos/ParsedArgumentsBuilder.cpp
@@ -76,7 +76,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
-- 
2.43.0


From 34e640a7df833a23dc2c222b48eedee7854fc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 23/40] fix: don't leave dangling views of values that are
 replaced or cleared

A callback that assigned to or cleared the value it had been given left the
value it, the next callback and the user of ArgumentIterator held dangling.
---
 single_src/Argos/Argos.cpp        | 26 +++++++++++++++-----------
 src/Argos/ParsedArgumentsImpl.cpp | 18 ++++++++----------
 src/Argos/ParsedArgumentsImpl.hpp |  8 +++++++-
 3 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 4ffd680..ddadf46 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -967,8 +967,14 @@ namespace argos
         void error(const std::string& message, ArgumentId argument_id);
 
     private:
+        using ValueMap
+            = std::multimap<ValueId, std::pair<std::string, ArgumentId>>;
+
         /// The values received from ArgumentIteratorImpl.
-        std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        ValueMap m_values;
+        /// Values that have been replaced or cleared. They are kept so that
+        /// string_views referring to them remain valid.
+        std::vector<ValueMap::node_type> m_old_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
@@ -5355,15 +5361,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -5376,7 +5375,12 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        // Views of the old values may still be in use.
+        for (auto it = m_values.find(value_id); it != m_values.end();
+             it = m_values.find(value_id))
+        {
+            m_old_values.push_back(m_values.extract(it));
+        }
     }
 
     ValueId
diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index 15ef0ef..c6ced6d 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -91,15 +91,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -112,7 +105,12 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        // Views of the old values may still be in use.
+        for (auto it = m_values.find(value_id); it != m_values.end();
+             it = m_values.find(value_id))
+        {
+            m_old_values.push_back(m_values.extract(it));
+        }
     }
 
     ValueId
diff --git a/src/Argos/ParsedArgumentsImpl.hpp b/src/Argos/ParsedArgumentsImpl.hpp
index aace419..c884928 100644
--- a/src/Argos/ParsedArgumentsImpl.hpp
+++ b/src/Argos/ParsedArgumentsImpl.hpp
@@ -75,8 +75,14 @@ namespace argos
         void error(const std::string& message, ArgumentId argument_id);
 
     private:
+        using ValueMap
+            = std::multimap<ValueId, std::pair<std::string, ArgumentId>>;
+
         /// The values received from ArgumentIteratorImpl.
-        std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        ValueMap m_values;
+        /// Values that have been replaced or cleared. They are kept so that
+        /// string_views referring to them remain valid.
+        std::vector<ValueMap::node_type> m_old_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
-- 
2.43.0


From 4ef4b7cc3d2f03188e72205809d93c2352e897ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:22 +0000
Subject: [PATCH 24/40] fix: don't let copy_from mix arguments and sub-commands

add() rejects a command having both, copy_from() accepted it and the program
could then never be parsed successfully.
---
 single_src/Argos/Argos.cpp | 6 ++++++
 src/Argos/CommandData.cpp  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index ddadf46..6e81e59 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3246,6 +3246,12 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if ((!arguments.empty() || !cmd.arguments.empty())
+            && (!commands.empty() || !cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 6f1f257..6d2ffe6 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -154,6 +154,12 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if ((!arguments.empty() || !cmd.arguments.empty())
+            && (!commands.empty() || !cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
-- 
2.43.0


From 7496bc3f5974a4304f407f03cc87c1193d5f8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 25/40] fix: treat arguments inserted by a LAST_OPTION option's
 callback as arguments when counting

---
 single_src/Argos/Argos.cpp         | 5 ++++-
 src/Argos/ArgumentIteratorImpl.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 6e81e59..9418402 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1438,6 +1438,10 @@ namespace argos
             break;
         }
 
+        // Arguments that are inserted by callbacks aren't options either.
+        if (opt.type == OptionType::LAST_OPTION)
+            m_state = State::ARGUMENTS_ONLY;
+
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
@@ -1470,7 +1474,6 @@ namespace argos
             m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
-            m_state = State::ARGUMENTS_ONLY;
             return {OptionResult::NORMAL, arg};
         }
         return {};
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index e1044c8..5c232f6 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -181,6 +181,10 @@ namespace argos
             break;
         }
 
+        // Arguments that are inserted by callbacks aren't options either.
+        if (opt.type == OptionType::LAST_OPTION)
+            m_state = State::ARGUMENTS_ONLY;
+
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
@@ -213,7 +217,6 @@ namespace argos
             m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
-            m_state = State::ARGUMENTS_ONLY;
             return {OptionResult::NORMAL, arg};
         }
         return {};
-- 
2.43.0


From 67731acec5f586708a797137cb99c3d6c519b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 26/40] fix: don't count arguments inserted by a LAST_ARGUMENT
 option's callback

---
 single_src/Argos/Argos.cpp         | 6 +++++-
 src/Argos/ArgumentIteratorImpl.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 9418402..188a03c 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1441,6 +1441,8 @@ namespace argos
         // Arguments that are inserted by callbacks aren't options either.
         if (opt.type == OptionType::LAST_OPTION)
             m_state = State::ARGUMENTS_ONLY;
+        else if (opt.type == OptionType::LAST_ARGUMENT)
+            m_state = State::DONE;
 
         if (opt.callback)
         {
@@ -1471,7 +1473,6 @@ namespace argos
             set_breaking_option(opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
-            m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
             return {OptionResult::NORMAL, arg};
@@ -1615,6 +1616,9 @@ namespace argos
     size_t ArgumentIteratorImpl::count_arguments(size_t initial_count) const
     {
         size_t result = initial_count;
+        if (m_state == State::DONE)
+            return result;
+
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         auto arg = m_state == State::ARGUMENTS_ONLY
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 5c232f6..174d60f 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -184,6 +184,8 @@ namespace argos
         // Arguments that are inserted by callbacks aren't options either.
         if (opt.type == OptionType::LAST_OPTION)
             m_state = State::ARGUMENTS_ONLY;
+        else if (opt.type == OptionType::LAST_ARGUMENT)
+            m_state = State::DONE;
 
         if (opt.callback)
         {
@@ -214,7 +216,6 @@ namespace argos
             set_breaking_option(opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
-            m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
             return {OptionResult::NORMAL, arg};
@@ -358,6 +359,9 @@ namespace argos
     size_t ArgumentIteratorImpl::count_arguments(size_t initial_count) const
     {
         size_t result = initial_count;
+        if (m_state == State::DONE)
+            return result;
+
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         auto arg = m_state == State::ARGUMENTS_ONLY
-- 
2.43.0


From b3b62ea4914b7494dab7a26b0c3af6cca858eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 27/40] fix: throw instead of crashing when an empty
 ParsedArguments or ArgumentValues is used

---
 include/Argos/ParsedArguments.hpp |  2 ++
 single_src/Argos/Argos.cpp        | 49 +++++++++++++++++++------------
 single_src/Argos/Argos.hpp        |  2 ++
 src/Argos/ArgumentValues.cpp      |  5 ++++
 src/Argos/ParsedArguments.cpp     | 45 ++++++++++++++++------------
 5 files changed, 65 insertions(+), 38 deletions(-)

diff --git a/include/Argos/ParsedArguments.hpp b/include/Argos/ParsedArguments.hpp
index 89f2a16..6167617 100644
--- a/include/Argos/ParsedArguments.hpp
+++ b/include/Argos/ParsedArguments.hpp
@@ -216,6 +216,8 @@ namespace argos
         [[noreturn]]
         void error(const std::string& msg) const;
     private:
+        [[nodiscard]] ParsedArgumentsImpl& impl() const;
+
         std::shared_ptr<ParsedArgumentsImpl> m_impl;
     };
 
diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 188a03c..f43e550 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -2693,11 +2693,15 @@ namespace argos
     std::vector<std::unique_ptr<IArgumentView>>
     ArgumentValues::arguments() const
     {
+        if (!m_args)
+            ARGOS_THROW("ArgumentValues has not been initialized.");
         return m_args->get_argument_views(m_value_id);
     }
 
     void ArgumentValues::error(const std::string& message) const
     {
+        if (!m_args)
+            ARGOS_THROW("ArgumentValues has not been initialized.");
         m_args->error(message, get_argument_id(m_values));
     }
 
@@ -4954,36 +4958,36 @@ namespace argos
 
     CommandView ParsedArguments::command() const
     {
-        return CommandView(m_impl->command());
+        return CommandView(impl().command());
     }
 
     std::string_view ParsedArguments::name() const
     {
-        return m_impl->command()->name;
+        return impl().command()->name;
     }
 
     bool ParsedArguments::has(const std::string& name) const
     {
-        return m_impl->has(m_impl->get_value_id(name));
+        return impl().has(impl().get_value_id(name));
     }
 
     bool ParsedArguments::has(const IArgumentView& arg) const
     {
-        return m_impl->has(arg.value_id());
+        return impl().has(arg.value_id());
     }
 
     std::vector<ParsedArguments> ParsedArguments::subcommands() const
     {
         std::vector<ParsedArguments> result;
-        for (const auto& subcommand : m_impl->subcommands())
+        for (const auto& subcommand : impl().subcommands())
             result.emplace_back(subcommand);
         return result;
     }
 
     ArgumentValue ParsedArguments::value(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        if (auto value = m_impl->get_value(id))
+        auto id = impl().get_value_id(name);
+        if (auto value = impl().get_value(id))
             return {value->first, m_impl, id, value->second};
         else
             return {{}, m_impl, id, {}};
@@ -4991,7 +4995,7 @@ namespace argos
 
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
-        if (auto value = m_impl->get_value(arg.value_id()))
+        if (auto value = impl().get_value(arg.value_id()))
             return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
@@ -4999,14 +5003,14 @@ namespace argos
 
     ArgumentValues ParsedArguments::values(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        auto values = m_impl->get_values(id);
+        auto id = impl().get_value_id(name);
+        auto values = impl().get_values(id);
         return {values, m_impl, id};
     }
 
     ArgumentValues ParsedArguments::values(const IArgumentView& arg) const
     {
-        auto values = m_impl->get_values(arg.value_id());
+        auto values = impl().get_values(arg.value_id());
         return {values, m_impl, arg.value_id()};
     }
 
@@ -5014,7 +5018,7 @@ namespace argos
     ParsedArguments::all_arguments() const
     {
         std::vector<std::unique_ptr<ArgumentView>> result;
-        for (auto& a : m_impl->command()->arguments)
+        for (auto& a : impl().command()->arguments)
             result.emplace_back(std::make_unique<ArgumentView>(a.get()));
         return result;
     }
@@ -5023,7 +5027,7 @@ namespace argos
     ParsedArguments::all_options() const
     {
         std::vector<std::unique_ptr<OptionView>> result;
-        for (auto& o : m_impl->command()->options)
+        for (auto& o : impl().command()->options)
             result.emplace_back(std::make_unique<OptionView>(o.get()));
         return result;
     }
@@ -5032,19 +5036,19 @@ namespace argos
     ParsedArguments::all_subcommands() const
     {
         std::vector<std::unique_ptr<CommandView>> result;
-        for (auto& c : m_impl->command()->commands)
+        for (auto& c : impl().command()->commands)
             result.emplace_back(std::make_unique<CommandView>(c.get()));
         return result;
     }
 
     ParserResultCode ParsedArguments::result_code() const
     {
-        return m_impl->result_code();
+        return impl().result_code();
     }
 
     OptionView ParsedArguments::stop_option() const
     {
-        const auto* option = m_impl->stop_option();
+        const auto* option = impl().stop_option();
         if (!option)
             ARGOS_THROW("There is no special option.");
         return OptionView(option);
@@ -5053,14 +5057,14 @@ namespace argos
     const std::vector<std::string>&
     ParsedArguments::unprocessed_arguments() const
     {
-        return m_impl->unprocessed_arguments();
+        return impl().unprocessed_arguments();
     }
 
     void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
     {
         if (argc <= 1)
             return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
+        const auto& unprocessed = impl().unprocessed_arguments();
         auto it = unprocessed.begin();
         int out = 1;
         if (!unprocessed.empty())
@@ -5080,7 +5084,14 @@ namespace argos
 
     void ParsedArguments::error(const std::string& msg) const
     {
-        m_impl->error(msg);
+        impl().error(msg);
+    }
+
+    ParsedArgumentsImpl& ParsedArguments::impl() const
+    {
+        if (!m_impl)
+            ARGOS_THROW("ParsedArguments has not been initialized.");
+        return *m_impl;
     }
 
     namespace
diff --git a/single_src/Argos/Argos.hpp b/single_src/Argos/Argos.hpp
index a689e11..ef68391 100644
--- a/single_src/Argos/Argos.hpp
+++ b/single_src/Argos/Argos.hpp
@@ -1675,6 +1675,8 @@ namespace argos
         [[noreturn]]
         void error(const std::string& msg) const;
     private:
+        [[nodiscard]] ParsedArgumentsImpl& impl() const;
+
         std::shared_ptr<ParsedArgumentsImpl> m_impl;
     };
 
diff --git a/src/Argos/ArgumentValues.cpp b/src/Argos/ArgumentValues.cpp
index 40822ba..c176dc6 100644
--- a/src/Argos/ArgumentValues.cpp
+++ b/src/Argos/ArgumentValues.cpp
@@ -8,6 +8,7 @@
 #include "Argos/ArgumentValues.hpp"
 
 #include "Argos/ArgumentValue.hpp"
+#include "ArgosThrow.hpp"
 #include "ParseValue.hpp"
 #include "ParsedArgumentsImpl.hpp"
 #include "StringUtilities.hpp"
@@ -110,11 +111,15 @@ namespace argos
     std::vector<std::unique_ptr<IArgumentView>>
     ArgumentValues::arguments() const
     {
+        if (!m_args)
+            ARGOS_THROW("ArgumentValues has not been initialized.");
         return m_args->get_argument_views(m_value_id);
     }
 
     void ArgumentValues::error(const std::string& message) const
     {
+        if (!m_args)
+            ARGOS_THROW("ArgumentValues has not been initialized.");
         m_args->error(message, get_argument_id(m_values));
     }
 
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index 740c2c3..f68d92c 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -32,36 +32,36 @@ namespace argos
 
     CommandView ParsedArguments::command() const
     {
-        return CommandView(m_impl->command());
+        return CommandView(impl().command());
     }
 
     std::string_view ParsedArguments::name() const
     {
-        return m_impl->command()->name;
+        return impl().command()->name;
     }
 
     bool ParsedArguments::has(const std::string& name) const
     {
-        return m_impl->has(m_impl->get_value_id(name));
+        return impl().has(impl().get_value_id(name));
     }
 
     bool ParsedArguments::has(const IArgumentView& arg) const
     {
-        return m_impl->has(arg.value_id());
+        return impl().has(arg.value_id());
     }
 
     std::vector<ParsedArguments> ParsedArguments::subcommands() const
     {
         std::vector<ParsedArguments> result;
-        for (const auto& subcommand : m_impl->subcommands())
+        for (const auto& subcommand : impl().subcommands())
             result.emplace_back(subcommand);
         return result;
     }
 
     ArgumentValue ParsedArguments::value(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        if (auto value = m_impl->get_value(id))
+        auto id = impl().get_value_id(name);
+        if (auto value = impl().get_value(id))
             return {value->first, m_impl, id, value->second};
         else
             return {{}, m_impl, id, {}};
@@ -69,7 +69,7 @@ namespace argos
 
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
-        if (auto value = m_impl->get_value(arg.value_id()))
+        if (auto value = impl().get_value(arg.value_id()))
             return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
@@ -77,14 +77,14 @@ namespace argos
 
     ArgumentValues ParsedArguments::values(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        auto values = m_impl->get_values(id);
+        auto id = impl().get_value_id(name);
+        auto values = impl().get_values(id);
         return {values, m_impl, id};
     }
 
     ArgumentValues ParsedArguments::values(const IArgumentView& arg) const
     {
-        auto values = m_impl->get_values(arg.value_id());
+        auto values = impl().get_values(arg.value_id());
         return {values, m_impl, arg.value_id()};
     }
 
@@ -92,7 +92,7 @@ namespace argos
     ParsedArguments::all_arguments() const
     {
         std::vector<std::unique_ptr<ArgumentView>> result;
-        for (auto& a : m_impl->command()->arguments)
+        for (auto& a : impl().command()->arguments)
             result.emplace_back(std::make_unique<ArgumentView>(a.get()));
         return result;
     }
@@ -101,7 +101,7 @@ namespace argos
     ParsedArguments::all_options() const
     {
         std::vector<std::unique_ptr<OptionView>> result;
-        for (auto& o : m_impl->command()->options)
+        for (auto& o : impl().command()->options)
             result.emplace_back(std::make_unique<OptionView>(o.get()));
         return result;
     }
@@ -110,19 +110,19 @@ namespace argos
     ParsedArguments::all_subcommands() const
     {
         std::vector<std::unique_ptr<CommandView>> result;
-        for (auto& c : m_impl->command()->commands)
+        for (auto& c : impl().command()->commands)
             result.emplace_back(std::make_unique<CommandView>(c.get()));
         return result;
     }
 
     ParserResultCode ParsedArguments::result_code() const
     {
-        return m_impl->result_code();
+        return impl().result_code();
     }
 
     OptionView ParsedArguments::stop_option() const
     {
-        const auto* option = m_impl->stop_option();
+        const auto* option = impl().stop_option();
         if (!option)
             ARGOS_THROW("There is no special option.");
         return OptionView(option);
@@ -131,14 +131,14 @@ namespace argos
     const std::vector<std::string>&
     ParsedArguments::unprocessed_arguments() const
     {
-        return m_impl->unprocessed_arguments();
+        return impl().unprocessed_arguments();
     }
 
     void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
     {
         if (argc <= 1)
             return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
+        const auto& unprocessed = impl().unprocessed_arguments();
         auto it = unprocessed.begin();
         int out = 1;
         if (!unprocessed.empty())
@@ -158,7 +158,14 @@ namespace argos
 
     void ParsedArguments::error(const std::string& msg) const
     {
-        m_impl->error(msg);
+        impl().error(msg);
+    }
+
+    ParsedArgumentsImpl& ParsedArguments::impl() const
+    {
+        if (!m_impl)
+            ARGOS_THROW("ParsedArguments has not been initialized.");
+        return *m_impl;
     }
 
     namespace
-- 
2.43.0


From 7d69268f08ed4694d7088ed55c2473e42774d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:50 +0000
Subject: [PATCH 28/40] fix: don't join words when there is no room for the
 indentation

---
 single_src/Argos/Argos.cpp  | 11 ++++++-----
 src/Argos/TextFormatter.cpp | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index f43e550..5467ed4 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6050,13 +6050,14 @@ namespace argos
 
     void TextFormatter::push_indentation(unsigned indent)
     {
-        if (indent == CURRENT_COLUMN)
-        {
+        const bool use_current_column = indent == CURRENT_COLUMN;
+        if (use_current_column)
             indent = m_writer.current_width();
-            m_writer.set_spaces(0);
-        }
         m_indents.push_back(indent);
-        m_writer.set_indentation(indent);
+        // The indentation replaces the spaces, keep them if there isn't room
+        // for it, otherwise the next word is appended to the previous one.
+        if (m_writer.set_indentation(indent) && use_current_column)
+            m_writer.set_spaces(0);
     }
 
     void TextFormatter::pop_indentation()
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ba3225b..6fe66c2 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -107,13 +107,14 @@ namespace argos
 
     void TextFormatter::push_indentation(unsigned indent)
     {
-        if (indent == CURRENT_COLUMN)
-        {
+        const bool use_current_column = indent == CURRENT_COLUMN;
+        if (use_current_column)
             indent = m_writer.current_width();
-            m_writer.set_spaces(0);
-        }
         m_indents.push_back(indent);
-        m_writer.set_indentation(indent);
+        // The indentation replaces the spaces, keep them if there isn't room
+        // for it, otherwise the next word is appended to the previous one.
+        if (m_writer.set_indentation(indent) && use_current_column)
+            m_writer.set_spaces(0);
     }
 
     void TextFormatter::pop_indentation()
-- 
2.43.0


From ba22b1cb943184532e276f424dcfeca306799936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:20 +0000
Subject: [PATCH 29/40] fix: don't separate a word from its punctuation because
 of a splitting rule

---
 single_src/Argos/Argos.cpp | 6 ++++++
 src/Argos/WordSplitter.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 5467ed4..8821099 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6402,6 +6402,12 @@ namespace argos
             {
                 if (split.index < start_index + 1)
                     continue;
+                // Don't separate a word from the punctuation after it.
+                if (!must_split && split.index == key.size()
+                    && split.index != word.size())
+                {
+                    break;
+                }
                 length += count_code_points(word.substr(prev.index, split.index - prev.index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
diff --git a/src/Argos/WordSplitter.cpp b/src/Argos/WordSplitter.cpp
index 07ae812..3d9103c 100644
--- a/src/Argos/WordSplitter.cpp
+++ b/src/Argos/WordSplitter.cpp
@@ -71,6 +71,12 @@ namespace argos
             {
                 if (split.index < start_index + 1)
                     continue;
+                // Don't separate a word from the punctuation after it.
+                if (!must_split && split.index == key.size()
+                    && split.index != word.size())
+                {
+                    break;
+                }
                 length += count_code_points(word.substr(prev.index, split.index - prev.index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
-- 
2.43.0


From 43563dc4dcbf6b964a4ca5f08f2b5ddaa7963a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 30/40] fix: don't lose the space after a list marker at the
 end of a text

---
 single_src/Argos/Argos.cpp  | 4 +---
 src/Argos/TextFormatter.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 8821099..6e1b68a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6217,10 +6217,8 @@ namespace argos
     void TextFormatter::end_alignment()
     {
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
-        {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
-        }
+        m_state = State::NO_ALIGNMENT;
     }
 }
 
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index 6fe66c2..b0e2f05 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -274,9 +274,7 @@ namespace argos
     void TextFormatter::end_alignment()
     {
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
-        {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
-        }
+        m_state = State::NO_ALIGNMENT;
     }
 }
-- 
2.43.0


From 7517fe6b859ccec504bc9c3512458c44ae73e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 31/40] fix: CommandView::help() returns the help text, not the
 about text

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandView.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 6e1b68a..9fd181a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3590,7 +3590,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
diff --git a/src/Argos/CommandView.cpp b/src/Argos/CommandView.cpp
index d1f9cef..087a2d1 100644
--- a/src/Argos/CommandView.cpp
+++ b/src/Argos/CommandView.cpp
@@ -18,7 +18,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
-- 
2.43.0


From 2a43a7a8678dc38164779389f495939204ddf32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 32/40] fix: options that don't set a value still take the
 argument they declare

---
 single_src/Argos/Argos.cpp         | 20 ++++++++++++++++++++
 src/Argos/ArgumentIteratorImpl.cpp | 10 ++++++++++
 src/Argos/ParsedArgumentsImpl.cpp  |  8 ++++++++
 src/Argos/ParsedArgumentsImpl.hpp  |  2 ++
 4 files changed, 40 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 9fd181a..d1214a0 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -926,6 +926,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id);
 
+        std::string_view add_unassigned_value(const std::string& value);
+
         void clear_value(ValueId value_id);
 
         [[nodiscard]] ValueId get_value_id(std::string_view value_name) const;
@@ -1435,6 +1437,16 @@ namespace argos
             parsed_args->clear_value(opt.value_id);
             break;
         case OptionOperation::NONE:
+            if (!opt.argument.empty())
+            {
+                const auto value = m_iterator.next_value();
+                if (!value)
+                {
+                    error(flag + ": no value given.");
+                    return {OptionResult::ERROR, {}};
+                }
+                arg = parsed_args->add_unassigned_value(*value);
+            }
             break;
         }
 
@@ -5397,6 +5409,14 @@ namespace argos
         return m_values.insert({value_id, {value, argument_id}})->second.first;
     }
 
+    std::string_view
+    ParsedArgumentsImpl::add_unassigned_value(const std::string& value)
+    {
+        auto it = m_values.insert({{}, {value, {}}});
+        m_old_values.push_back(m_values.extract(it));
+        return m_old_values.back().mapped().first;
+    }
+
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
         // Views of the old values may still be in use.
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 174d60f..f3ca53a 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -178,6 +178,16 @@ namespace argos
             parsed_args->clear_value(opt.value_id);
             break;
         case OptionOperation::NONE:
+            if (!opt.argument.empty())
+            {
+                const auto value = m_iterator.next_value();
+                if (!value)
+                {
+                    error(flag + ": no value given.");
+                    return {OptionResult::ERROR, {}};
+                }
+                arg = parsed_args->add_unassigned_value(*value);
+            }
             break;
         }
 
diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index c6ced6d..cafff5a 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -103,6 +103,14 @@ namespace argos
         return m_values.insert({value_id, {value, argument_id}})->second.first;
     }
 
+    std::string_view
+    ParsedArgumentsImpl::add_unassigned_value(const std::string& value)
+    {
+        auto it = m_values.insert({{}, {value, {}}});
+        m_old_values.push_back(m_values.extract(it));
+        return m_old_values.back().mapped().first;
+    }
+
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
         // Views of the old values may still be in use.
diff --git a/src/Argos/ParsedArgumentsImpl.hpp b/src/Argos/ParsedArgumentsImpl.hpp
index c884928..ca0241a 100644
--- a/src/Argos/ParsedArgumentsImpl.hpp
+++ b/src/Argos/ParsedArgumentsImpl.hpp
@@ -34,6 +34,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id);
 
+        std::string_view add_unassigned_value(const std::string& value);
+
         void clear_value(ValueId value_id);
 
         [[nodiscard]] ValueId get_value_id(std::string_view value_name) const;
-- 
2.43.0


From 30685717317929c3859319aeb7e90f1f84bb59d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:57 +0000
Subject: [PATCH 33/40] fix: mergecpp.py can write its output to the current
 directory

---
 tools/make_single_src/mergecpp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/make_single_src/mergecpp.py b/tools/make_single_src/mergecpp.py
index aedfaf6..856387e 100644
--- a/tools/make_single_src/mergecpp.py
+++ b/tools/make_single_src/mergecpp.py
@@ -233,8 +233,9 @@ def main():
                 return 0
         except Exception:
             pass
-        if not os.path.exists(os.path.dirname(args.output)):
-            os.makedirs(os.path.dirname(args.output))
+        output_dir = os.path.dirname(args.output)
+        if output_dir and not os.path.exists(output_dir):
+            os.makedirs(output_dir)
         open(args.output, "w", encoding="utf-8").write(text)
         print(f"Updated {args.output}")
     else:
-- 
2.43.0


From 7bcd31c5d0478feb17dcb975c80878cea8107b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:32 +0000
Subject: [PATCH 34/40] fix: mergecpp.py doesn't write warnings into its output

---
 tools/make_single_src/mergecpp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/make_single_src/mergecpp.py b/tools/make_single_src/mergecpp.py
index 856387e..6e049eb 100644
--- a/tools/make_single_src/mergecpp.py
+++ b/tools/make_single_src/mergecpp.py
@@ -190,7 +190,7 @@ def main():
         if not os.path.exists(path):
             tmp = glob.glob(path)
             if not tmp:
-                print(f"WARNING: {path} not found.")
+                print(f"WARNING: {path} not found.", file=sys.stderr)
             for p in tmp:
                 if p not in visited:
                     paths.append(p)
@@ -200,7 +200,8 @@ def main():
             visited.add(path)
         else:
             print(f"WARNING: {path} is listed more than once among the input"
-                  f" files. All but the first will be ignored.")
+                  f" files. All but the first will be ignored.",
+                  file=sys.stderr)
 
     known_files = {}
     if args.include:
-- 
2.43.0


From 68925c97becf7a55183e8fcabcf197e44b1c0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:32 +0000
Subject: [PATCH 35/40] fix: mergecpp.py doesn't lose an include after a byte
 order mark

---
 tools/make_single_src/mergecpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/make_single_src/mergecpp.py b/tools/make_single_src/mergecpp.py
index 6e049eb..07d33f4 100644
--- a/tools/make_single_src/mergecpp.py
+++ b/tools/make_single_src/mergecpp.py
@@ -31,7 +31,7 @@ def get_all_files_names(dir_name):
 
 def get_includes(file_path):
     includes = []
-    for line in open(file_path):
+    for line in open(file_path, encoding="utf-8-sig"):
         m = INCLUDE_FILE_REGEX.match(line)
         if m:
             includes.append(m.group(1) or m.group(2))
-- 
2.43.0


From 220c83c8f1050183f64b3fba4c6888e93dc87fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:32 +0000
Subject: [PATCH 36/40] fix: mergecpp.py merges a file once, even if it's both
 listed and included

---
 tools/make_single_src/mergecpp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/make_single_src/mergecpp.py b/tools/make_single_src/mergecpp.py
index 07d33f4..ddb9f17 100644
--- a/tools/make_single_src/mergecpp.py
+++ b/tools/make_single_src/mergecpp.py
@@ -85,9 +85,10 @@ def get_file_inclusion_order_rec(result, file_path, dependencies, visited):
 def get_file_inclusion_order(file_paths, dependencies, ignore_files):
     visited = set(ignore_files)
     result = []
-    for file_path in file_paths:
-        get_file_inclusion_order_rec(result, os.path.realpath(file_path),
-                                     dependencies, visited)
+    for file_path in map(os.path.realpath, file_paths):
+        if file_path not in result:
+            get_file_inclusion_order_rec(result, file_path,
+                                         dependencies, visited)
     return result
 
 
-- 
2.43.0


From 5a99e86f462ddadfd3b5bcb40d415b6896420e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:44 +0000
Subject: [PATCH 37/40] fix: mergecpp.py doesn't drop an include because of one
 inside #if

---
 tools/make_single_src/mergecpp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/make_single_src/mergecpp.py b/tools/make_single_src/mergecpp.py
index ddb9f17..c8b083e 100644
--- a/tools/make_single_src/mergecpp.py
+++ b/tools/make_single_src/mergecpp.py
@@ -134,13 +134,21 @@ def remove_pragma_once(lines, keep_first):
 def remove_redundant_includes(lines):
     output = []
     known_includes = set()
+    # An include inside #if...#endif may not take effect, and must therefore
+    # not replace the ones that come after it.
+    depth = 0
     for line in lines:
+        if re.match(r"\s*#\s*if", line):
+            depth += 1
+        elif re.match(r"\s*#\s*endif\b", line):
+            depth -= 1
         m = INCLUDE_FILE_REGEX.match(line)
         if not m:
             output.append(line)
         elif (m.group(1) or m.group(2)) not in known_includes:
             output.append(line)
-            known_includes.add(m.group(1) or m.group(2))
+            if depth == 0:
+                known_includes.add(m.group(1) or m.group(2))
     return output
 
 
-- 
2.43.0


From c7bad32ba3d042f68d3b3a4f25a99aa922044284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:54 +0000
Subject: [PATCH 38/40] fix: the automatic version option exits like the
 documentation says

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/ParserData.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d1214a0..efdfadc 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5600,7 +5600,7 @@ namespace argos
             auto stream = data.help_settings.output_stream
                               ? data.help_settings.output_stream
                               : &std::cout;
-            auto opt = Option().flag(flag).type(OptionType::STOP)
+            auto opt = Option().flag(flag).type(OptionType::EXIT)
                 .help("Display the program version.")
                 .constant("1")
                 .callback([v = data.version, stream]
diff --git a/src/Argos/ParserData.cpp b/src/Argos/ParserData.cpp
index d60cd5b..d487eec 100644
--- a/src/Argos/ParserData.cpp
+++ b/src/Argos/ParserData.cpp
@@ -42,7 +42,7 @@ namespace argos
             auto stream = data.help_settings.output_stream
                               ? data.help_settings.output_stream
                               : &std::cout;
-            auto opt = Option().flag(flag).type(OptionType::STOP)
+            auto opt = Option().flag(flag).type(OptionType::EXIT)
                 .help("Display the program version.")
                 .constant("1")
                 .callback([v = data.version, stream]
-- 
2.43.0


From e6297c439534e49d1463dc480abd0394443f293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:03 +0000
Subject: [PATCH 39/40] fix: spaces and tabs at the start of a line don't
 indent the texts after it

---
 single_src/Argos/Argos.cpp  | 8 ++++++++
 src/Argos/TextFormatter.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index efdfadc..7f8368f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6210,6 +6210,14 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
+        // There can be both spaces and tabs at the start of the line.
+        if (m_state == State::ALIGNMENT && m_writer.is_current_line_empty())
+        {
+            const auto column = m_writer.current_width();
+            end_alignment();
+            m_writer.set_spaces(column - m_writer.indentation());
+        }
+
         if (m_writer.is_current_line_empty()
             || m_state == State::UNALIGNED_MARKER)
         {
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index b0e2f05..ce1cd0c 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -247,6 +247,14 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
+        // There can be both spaces and tabs at the start of the line.
+        if (m_state == State::ALIGNMENT && m_writer.is_current_line_empty())
+        {
+            const auto column = m_writer.current_width();
+            end_alignment();
+            m_writer.set_spaces(column - m_writer.indentation());
+        }
+
         if (m_writer.is_current_line_empty()
             || m_state == State::UNALIGNED_MARKER)
         {
-- 
2.43.0


From 3647030350ff66e88e2551d3c7a9da68d726f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:03 +0000
Subject: [PATCH 40/40] fix: mergecpp.py recognizes includes with spaces after
 #

---
 tools/make_single_src/mergecpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/make_single_src/mergecpp.py b/tools/make_single_src/mergecpp.py
index c8b083e..caf359e 100644
--- a/tools/make_single_src/mergecpp.py
+++ b/tools/make_single_src/mergecpp.py
@@ -14,7 +14,7 @@ import re
 import sys
 
 
-INCLUDE_FILE_REGEX = re.compile(r"\s*#include\s*(?:\"([^\"]+)\"|<([^>]+)>).*")
+INCLUDE_FILE_REGEX = re.compile(r"\s*#\s*include\s*(?:\"([^\"]+)\"|<([^>]+)>).*")
 
 
 def get_all_files_names(dir_name):
-- 
2.43.0

