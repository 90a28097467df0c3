From 0cae08bd16d543af2d34b61ee9f194ac38d2a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 01/30] fix: treat arguments as complete when all remaining
 counters are zero

---
 single_src/Argos/Argos.cpp    | 9 ++++++---
 src/Argos/ArgumentCounter.cpp | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 071cdaa..d730eab 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -506,9 +506,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (size_t i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index de1616c..10fc6c4 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -121,9 +121,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (size_t i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
-- 
2.43.0


From cb8d24626d99a1c504a4ca8e0b86936456e50f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 02/30] fix: do not return spurious empty values in SLASH and
 DASH style

---
 single_src/Argos/Argos.cpp   | 2 +-
 src/Argos/OptionIterator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d730eab..25574f7 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4525,7 +4525,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
diff --git a/src/Argos/OptionIterator.cpp b/src/Argos/OptionIterator.cpp
index 27b0d71..2866430 100644
--- a/src/Argos/OptionIterator.cpp
+++ b/src/Argos/OptionIterator.cpp
@@ -78,7 +78,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
-- 
2.43.0


From 662f510d53f7c7a6baafe7eb6167aa48ee093c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 03/30] fix: make case-insensitive comparison a strict weak
 ordering

---
 single_src/Argos/Argos.cpp    | 10 ++--------
 src/Argos/StringUtilities.cpp | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 25574f7..0b0a36e 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5655,15 +5655,9 @@ namespace argos
         return starts_with(str, prefix);
     }
 
-    int compare_ci(int c1, int c2)
+    int compare_ci(char c1, char c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return int(uint8_t(to_lower(c1))) - int(uint8_t(to_lower(c2)));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index d992c99..beb972b 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -61,15 +61,9 @@ namespace argos
         return starts_with(str, prefix);
     }
 
-    int compare_ci(int c1, int c2)
+    int compare_ci(char c1, char c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return int(uint8_t(to_lower(c1))) - int(uint8_t(to_lower(c2)));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
-- 
2.43.0


From ad5faf2e854db3021782398ed6f65f2c741d9cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 04/30] fix: only look for options among arguments that look
 like options

---
 single_src/Argos/Argos.cpp         | 12 ++++++++----
 src/Argos/ArgumentIteratorImpl.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 0b0a36e..8ee1b3f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1589,10 +1589,14 @@ namespace argos
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         for (auto arg = it.next(); arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
+            const OptionData* option = nullptr;
+            if (is_option(*arg, m_data->parser_settings.option_style))
+            {
+                option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+            }
 
             if (option)
             {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1034c88..b569a76 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -350,10 +350,14 @@ namespace argos
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         for (auto arg = it.next(); arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
+            const OptionData* option = nullptr;
+            if (is_option(*arg, m_data->parser_settings.option_style))
+            {
+                option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+            }
 
             if (option)
             {
-- 
2.43.0


From 890dccbf08c2790fe5a1939295c8cfcab1641ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 05/30] fix: do not count arguments after EXIT options

---
 single_src/Argos/Argos.cpp         | 1 +
 src/Argos/ArgumentIteratorImpl.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 8ee1b3f..cb80b0f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1610,6 +1610,7 @@ namespace argos
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
+                case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
                     arguments_only = true;
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index b569a76..93de362 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -371,6 +371,7 @@ namespace argos
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
+                case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
                     arguments_only = true;
-- 
2.43.0


From e468ba5b87836a3c06d058fbecd364d257dbade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 06/30] fix: preserve visibility when commands are copied

---
 single_src/Argos/Argos.cpp | 4 ++++
 src/Argos/CommandData.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index cb80b0f..d62206e 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3031,6 +3031,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -3056,6 +3057,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -3074,6 +3076,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -3107,6 +3110,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 16523d0..3d150d4 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -24,6 +24,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -49,6 +50,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -67,6 +69,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -100,6 +103,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
-- 
2.43.0


From a09a89e99378a20f243eb513a25c16e81d44e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 07/30] fix: include the version option in const parse and help
 text

---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d62206e..8147180 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1792,6 +1792,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 61ab47d..e5ca061 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -26,6 +26,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
-- 
2.43.0


From b05b825bd115c8469ab1bfa35284a28230c4a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 08/30] fix: include all parents in the full name of nested
 commands

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandData.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 8147180..d7ae310 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3454,7 +3454,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 3d150d4..e134d6e 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -446,7 +446,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
-- 
2.43.0


From f28c878123ae6666ed6c533f601115143d5ecfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 09/30] fix: throw if parse is called on an invalid
 ArgumentParser

---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d7ae310..0f4e2ce 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1886,6 +1886,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index e5ca061..7e3a65e 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -120,6 +120,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-- 
2.43.0


From 31d2d300350e2cb0d2455020f63f1992bfaf4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 10/30] fix: throw if copying from a Command that has been
 moved

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/Command.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 0f4e2ce..3644884 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -2992,7 +2992,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
diff --git a/src/Argos/Command.cpp b/src/Argos/Command.cpp
index e5993f4..1402b12 100644
--- a/src/Argos/Command.cpp
+++ b/src/Argos/Command.cpp
@@ -167,7 +167,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
-- 
2.43.0


From 2f1e400cf2023374236f34c762e217680ac67fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 11/30] fix: do not produce an empty value after splitting
 concatenated options

---
 single_src/Argos/Argos.cpp           | 1 +
 src/Argos/StandardOptionIterator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 3644884..524c94a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5601,6 +5601,7 @@ namespace argos
         m_all_args.insert(m_all_args.begin() + index + 1,
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
+        m_pos = std::string::npos;
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
     }
 }
diff --git a/src/Argos/StandardOptionIterator.cpp b/src/Argos/StandardOptionIterator.cpp
index e950414..cd1a500 100644
--- a/src/Argos/StandardOptionIterator.cpp
+++ b/src/Argos/StandardOptionIterator.cpp
@@ -125,6 +125,7 @@ namespace argos
         m_all_args.insert(m_all_args.begin() + index + 1,
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
+        m_pos = std::string::npos;
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
     }
 }
-- 
2.43.0


From 1e71fa7dddc61f404fd1a6e61ba67c74879cef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 12/30] fix: avoid out of range exception when text ends with
 carriage return

---
 single_src/Argos/Argos.cpp  | 2 +-
 src/Argos/TextFormatter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 524c94a..dc49e4c 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5841,7 +5841,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ff39e22..ba3225b 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -22,7 +22,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
-- 
2.43.0


From 7fb55d8668add6effc1b97a7793ca8e24db3b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 13/30] fix: exit after displaying the version if auto_exit is
 enabled

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/ParserData.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index dc49e4c..f7b1a78 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5456,7 +5456,7 @@ namespace argos
             auto stream = data.help_settings.output_stream
                               ? data.help_settings.output_stream
                               : &std::cout;
-            auto opt = Option().flag(flag).type(OptionType::STOP)
+            auto opt = Option().flag(flag).type(OptionType::EXIT)
                 .help("Display the program version.")
                 .constant("1")
                 .callback([v = data.version, stream]
diff --git a/src/Argos/ParserData.cpp b/src/Argos/ParserData.cpp
index d60cd5b..d487eec 100644
--- a/src/Argos/ParserData.cpp
+++ b/src/Argos/ParserData.cpp
@@ -42,7 +42,7 @@ namespace argos
             auto stream = data.help_settings.output_stream
                               ? data.help_settings.output_stream
                               : &std::cout;
-            auto opt = Option().flag(flag).type(OptionType::STOP)
+            auto opt = Option().flag(flag).type(OptionType::EXIT)
                 .help("Display the program version.")
                 .constant("1")
                 .callback([v = data.version, stream]
-- 
2.43.0


From 46237265aa80d86317841df1e026ed98db0c06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 14/30] fix: assign initial values to the options of
 sub-commands

---
 single_src/Argos/Argos.cpp         | 29 +++++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.cpp | 27 +++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index f7b1a78..14d3cea 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1047,6 +1047,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void assign_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
@@ -1290,16 +1292,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        assign_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -1561,6 +1554,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        assign_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -1574,6 +1568,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::assign_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 93de362..5a45c68 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -51,16 +51,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        assign_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -322,6 +313,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        assign_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -335,6 +327,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::assign_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index e81b04c..c033bb0 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -74,6 +74,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void assign_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
-- 
2.43.0


From 8bca7dfdc65c5e2ec36c56b9d93d401ed3426c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 15/30] fix: check mandatory options of all the parsed commands

---
 single_src/Argos/Argos.cpp         | 18 ++++++++++++------
 src/Argos/ArgumentIteratorImpl.cpp | 15 +++++++++++----
 src/Argos/ArgumentIteratorImpl.hpp |  3 +--
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 14d3cea..f3e9ab0 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1067,8 +1067,7 @@ namespace argos
 
         void error(const std::string& message = {});
 
-        bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
-                                       const CommandData& command);
+        bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args);
 
         std::shared_ptr<ParserData> m_data;
         const CommandData* m_command = nullptr;
@@ -1659,7 +1658,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(*toplevel_parsed_arguments()))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -1761,21 +1760,28 @@ namespace argos
     }
 
     bool ArgumentIteratorImpl::has_all_mandatory_options(
-        const ParsedArgumentsImpl& parsed_args,
-        const CommandData& command)
+        const ParsedArgumentsImpl& parsed_args)
     {
-        for (const auto& o : command.options)
+        const auto* command = parsed_args.command();
+        for (const auto& o : command->options)
         {
             if (!o->optional && !parsed_args.has(o->value_id))
             {
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
+                m_command = command;
                 error("Mandatory option is missing: " + flags);
                 return false;
             }
         }
 
+        for (const auto& subcommand : parsed_args.subcommands())
+        {
+            if (!has_all_mandatory_options(*subcommand))
+                return false;
+        }
+
         return true;
     }
 }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 5a45c68..964a63f 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -418,7 +418,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(*toplevel_parsed_arguments()))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -520,21 +520,28 @@ namespace argos
     }
 
     bool ArgumentIteratorImpl::has_all_mandatory_options(
-        const ParsedArgumentsImpl& parsed_args,
-        const CommandData& command)
+        const ParsedArgumentsImpl& parsed_args)
     {
-        for (const auto& o : command.options)
+        const auto* command = parsed_args.command();
+        for (const auto& o : command->options)
         {
             if (!o->optional && !parsed_args.has(o->value_id))
             {
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
+                m_command = command;
                 error("Mandatory option is missing: " + flags);
                 return false;
             }
         }
 
+        for (const auto& subcommand : parsed_args.subcommands())
+        {
+            if (!has_all_mandatory_options(*subcommand))
+                return false;
+        }
+
         return true;
     }
 }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index c033bb0..c4b249a 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -94,8 +94,7 @@ namespace argos
 
         void error(const std::string& message = {});
 
-        bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
-                                       const CommandData& command);
+        bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args);
 
         std::shared_ptr<ParserData> m_data;
         const CommandData* m_command = nullptr;
-- 
2.43.0


From b7fc52b66e79972fa3397cd0639b4a0262589910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 16/30] fix: make the result code of parent and sibling
 commands reflect the outcome

---
 single_src/Argos/Argos.cpp         | 16 ++++++++++++----
 src/Argos/ArgumentIteratorImpl.cpp | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index f3e9ab0..45e6c73 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1279,6 +1279,13 @@ namespace argos
                 return StandardOptionIterator(std::move(args));
             }
         }
+
+        void set_success(ParsedArgumentsImpl& parsed_args)
+        {
+            parsed_args.set_result_code(ParserResultCode::SUCCESS);
+            for (const auto& subcommand : parsed_args.subcommands())
+                set_success(*subcommand);
+        }
     }
 
     ArgumentIteratorImpl::ArgumentIteratorImpl(std::vector<std::string_view> args,
@@ -1443,11 +1450,13 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -1670,8 +1679,7 @@ namespace argos
         if (m_argument_counter.is_complete())
         {
             m_state = State::DONE;
-            for (const auto& pa : m_parsed_args)
-                pa->set_result_code(ParserResultCode::SUCCESS);
+            set_success(*toplevel_parsed_arguments());
             return true;
         }
         else
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 964a63f..e3616e0 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -39,6 +39,13 @@ namespace argos
                 return StandardOptionIterator(std::move(args));
             }
         }
+
+        void set_success(ParsedArgumentsImpl& parsed_args)
+        {
+            parsed_args.set_result_code(ParserResultCode::SUCCESS);
+            for (const auto& subcommand : parsed_args.subcommands())
+                set_success(*subcommand);
+        }
     }
 
     ArgumentIteratorImpl::ArgumentIteratorImpl(std::vector<std::string_view> args,
@@ -203,11 +210,13 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -430,8 +439,7 @@ namespace argos
         if (m_argument_counter.is_complete())
         {
             m_state = State::DONE;
-            for (const auto& pa : m_parsed_args)
-                pa->set_result_code(ParserResultCode::SUCCESS);
+            set_success(*toplevel_parsed_arguments());
             return true;
         }
         else
-- 
2.43.0


From c3dc00480c63305176e0f3dbb0f1c809511a455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 17/30] fix: do not allow copy_from to mix arguments and
 sub-commands

---
 single_src/Argos/Argos.cpp | 6 ++++++
 src/Argos/CommandData.cpp  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 45e6c73..ea8365d 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3186,6 +3186,12 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if ((!arguments.empty() || !cmd.arguments.empty())
+            && (!commands.empty() || !cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index e134d6e..08ffbce 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -154,6 +154,12 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if ((!arguments.empty() || !cmd.arguments.empty())
+            && (!commands.empty() || !cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
-- 
2.43.0


From b92e5eb46be9bbc284cbc99d2ed8e004016f8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 18/30] fix: take the program name from argv in make_iterator
 and const parse

---
 single_src/Argos/Argos.cpp   | 30 ++++++++++++++++++++++--------
 src/Argos/ArgumentParser.cpp | 30 ++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index ea8365d..c40fbf8 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1821,6 +1821,12 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void update_program_name(ParserData& data, const char* name)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(name) != 0)
+                data.command.name = get_base_name(name);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -1913,20 +1919,21 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        update_program_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+
+        auto data = make_copy(*m_data);
+        update_program_name(*data, argv[0]);
+        return parse_arguments(
+            std::vector<std::string_view>(argv + 1, argv + argc),
+            std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -1943,16 +1950,23 @@ namespace argos
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        update_program_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        auto data = make_copy(*m_data);
+        update_program_name(*data, argv[0]);
+        return make_argument_iterator(
+            std::vector<std::string_view>(argv + 1, argv + argc),
+            std::move(data));
     }
 
     ArgumentIterator
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 7e3a65e..475f953 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -32,6 +32,12 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void update_program_name(ParserData& data, const char* name)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(name) != 0)
+                data.command.name = get_base_name(name);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -124,20 +130,21 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        update_program_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+
+        auto data = make_copy(*m_data);
+        update_program_name(*data, argv[0]);
+        return parse_arguments(
+            std::vector<std::string_view>(argv + 1, argv + argc),
+            std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -154,16 +161,23 @@ namespace argos
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        update_program_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        auto data = make_copy(*m_data);
+        update_program_name(*data, argv[0]);
+        return make_argument_iterator(
+            std::vector<std::string_view>(argv + 1, argv + argc),
+            std::move(data));
     }
 
     ArgumentIterator
-- 
2.43.0


From 41e4956c2f33e4f9495932f582d1a2d972c82814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 19/30] fix: do not discard the rest of argv if an argument is
 not found

---
 single_src/Argos/Argos.cpp    | 21 +++++++++------------
 src/Argos/ParsedArguments.cpp | 21 +++++++++------------
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index c40fbf8..d0a3e13 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4988,20 +4988,17 @@ namespace argos
     {
         if (argc <= 1)
             return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
-        auto it = unprocessed.begin();
+        int in = 1;
         int out = 1;
-        if (!unprocessed.empty())
+        for (const auto& arg : m_impl->unprocessed_arguments())
         {
-            for (int in = 1; in < argc; ++in)
-            {
-                if (argv[in] == *it)
-                {
-                    argv[out++] = argv[in];
-                    if (++it == unprocessed.end())
-                        break;
-                }
-            }
+            // Skip arguments that aren't literally present in argv, e.g. the
+            // remainder of a group of concatenated options.
+            const auto it = std::find(argv + in, argv + argc, arg);
+            if (it == argv + argc)
+                continue;
+            in = int(it - argv) + 1;
+            argv[out++] = *it;
         }
         argc = out;
     }
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index dc9881c..3be60d8 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -138,20 +138,17 @@ namespace argos
     {
         if (argc <= 1)
             return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
-        auto it = unprocessed.begin();
+        int in = 1;
         int out = 1;
-        if (!unprocessed.empty())
+        for (const auto& arg : m_impl->unprocessed_arguments())
         {
-            for (int in = 1; in < argc; ++in)
-            {
-                if (argv[in] == *it)
-                {
-                    argv[out++] = argv[in];
-                    if (++it == unprocessed.end())
-                        break;
-                }
-            }
+            // Skip arguments that aren't literally present in argv, e.g. the
+            // remainder of a group of concatenated options.
+            const auto it = std::find(argv + in, argv + argc, arg);
+            if (it == argv + argc)
+                continue;
+            in = int(it - argv) + 1;
+            argv[out++] = *it;
         }
         argc = out;
     }
-- 
2.43.0


From 92619de2f5b7fe647da60fe7c582126789a3c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 20/30] fix: do not exceed the maximum count when callbacks add
 arguments

---
 single_src/Argos/Argos.cpp         | 69 +++++++++++++++++-------------
 src/Argos/ArgumentCounter.cpp      | 54 ++++++++++++-----------
 src/Argos/ArgumentCounter.hpp      | 11 ++++-
 src/Argos/ArgumentIteratorImpl.cpp |  2 +-
 4 files changed, 80 insertions(+), 56 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d0a3e13..6938ba8 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -360,9 +360,16 @@ namespace argos
 
         explicit ArgumentCounter(const CommandData& command);
 
+        ArgumentCounter(const CommandData& command,
+                        size_t argument_count);
+
+        /**
+         * Make a counter for a command that has already received
+         * the arguments in @a previous.
+         */
         ArgumentCounter(const CommandData& command,
                         size_t argument_count,
-                        size_t initial_count = 0);
+                        const ArgumentCounter& previous);
 
         const ArgumentData* next_argument();
 
@@ -380,7 +387,7 @@ namespace argos
         std::vector<Counter> m_counters;
         size_t m_index = 0;
         size_t m_first_optional = 0;
-        size_t m_counter = 0;
+        std::vector<const ArgumentData*> m_received;
     };
 }
 
@@ -392,6 +399,8 @@ namespace argos
 // License text is included with the source distribution.
 //****************************************************************************
 
+#include <algorithm>
+
 namespace argos
 {
     namespace
@@ -431,7 +440,8 @@ namespace argos
 
         std::vector<std::pair<size_t, const ArgumentData*>>
         make_argument_counters(const CommandData& command,
-                               size_t n)
+                               size_t n,
+                               const std::vector<const ArgumentData*>& received = {})
         {
             const auto [lo, hi] = ArgumentCounter::get_min_max_count(command);
             if (n < lo)
@@ -442,22 +452,21 @@ namespace argos
                 n -= lo;
 
             std::vector<std::pair<size_t, const ArgumentData*>> result;
+            bool is_passed = !received.empty();
             for (auto& arg : command.arguments)
             {
-                if (n == 0 || arg->min_count == arg->max_count)
-                {
-                    result.emplace_back(arg->min_count, arg.get());
-                }
-                else if (arg->min_count + n <= arg->max_count)
-                {
-                    result.emplace_back(arg->min_count + n, arg.get());
-                    n = 0;
-                }
-                else
-                {
-                    result.emplace_back(arg->max_count, arg.get());
-                    n -= arg->max_count - arg->min_count;
-                }
+                if (is_passed && arg.get() == received.back())
+                    is_passed = false;
+                // An argument can't receive any more values once a value has
+                // been given to one of the arguments after it.
+                const size_t used = std::count(received.begin(), received.end(),
+                                               arg.get());
+                const size_t min_count = std::max<size_t>(arg->min_count, used);
+                const size_t max_count = is_passed ? used : arg->max_count;
+                n -= std::min(n, min_count - arg->min_count);
+                const size_t extra = std::min(n, max_count - min_count);
+                result.emplace_back(min_count + extra - used, arg.get());
+                n -= extra;
             }
             return result;
         }
@@ -474,16 +483,20 @@ namespace argos
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command,
-                                     size_t argument_count,
-                                     size_t initial_count)
+                                     size_t argument_count)
         : m_counters(make_argument_counters(command, argument_count)),
           m_first_optional(m_counters.size())
     {
-        for (size_t i = 0; i < initial_count; ++i)
-        {
-            if (next_argument() == nullptr)
-                break;
-        }
+    }
+
+    ArgumentCounter::ArgumentCounter(const CommandData& command,
+                                     size_t argument_count,
+                                     const ArgumentCounter& previous)
+        : m_counters(make_argument_counters(command, argument_count,
+                                            previous.m_received)),
+          m_first_optional(m_counters.size()),
+          m_received(previous.m_received)
+    {
     }
 
     const ArgumentData* ArgumentCounter::next_argument()
@@ -494,14 +507,14 @@ namespace argos
         if (m_index == m_counters.size())
             return nullptr;
 
-        ++m_counter;
+        m_received.push_back(m_counters[m_index].second);
         --m_counters[m_index].first;
         return m_counters[m_index].second;
     }
 
     size_t ArgumentCounter::count() const
     {
-        return m_counter;
+        return m_received.size();
     }
 
     bool ArgumentCounter::is_complete() const
@@ -1251,8 +1264,6 @@ namespace argos
 // License text is included with the source distribution.
 //****************************************************************************
 
-#include <algorithm>
-
 namespace argos
 {
     namespace
@@ -1750,7 +1761,7 @@ namespace argos
         auto current_count = m_argument_counter.count();
         auto total_count = current_count + count_arguments();
         m_argument_counter = ArgumentCounter(*m_command, total_count,
-                                             current_count);
+                                             m_argument_counter);
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index 10fc6c4..0b66932 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -7,6 +7,8 @@
 //****************************************************************************
 #include "ArgumentCounter.hpp"
 
+#include <algorithm>
+
 namespace argos
 {
     namespace
@@ -46,7 +48,8 @@ namespace argos
 
         std::vector<std::pair<size_t, const ArgumentData*>>
         make_argument_counters(const CommandData& command,
-                               size_t n)
+                               size_t n,
+                               const std::vector<const ArgumentData*>& received = {})
         {
             const auto [lo, hi] = ArgumentCounter::get_min_max_count(command);
             if (n < lo)
@@ -57,22 +60,21 @@ namespace argos
                 n -= lo;
 
             std::vector<std::pair<size_t, const ArgumentData*>> result;
+            bool is_passed = !received.empty();
             for (auto& arg : command.arguments)
             {
-                if (n == 0 || arg->min_count == arg->max_count)
-                {
-                    result.emplace_back(arg->min_count, arg.get());
-                }
-                else if (arg->min_count + n <= arg->max_count)
-                {
-                    result.emplace_back(arg->min_count + n, arg.get());
-                    n = 0;
-                }
-                else
-                {
-                    result.emplace_back(arg->max_count, arg.get());
-                    n -= arg->max_count - arg->min_count;
-                }
+                if (is_passed && arg.get() == received.back())
+                    is_passed = false;
+                // An argument can't receive any more values once a value has
+                // been given to one of the arguments after it.
+                const size_t used = std::count(received.begin(), received.end(),
+                                               arg.get());
+                const size_t min_count = std::max<size_t>(arg->min_count, used);
+                const size_t max_count = is_passed ? used : arg->max_count;
+                n -= std::min(n, min_count - arg->min_count);
+                const size_t extra = std::min(n, max_count - min_count);
+                result.emplace_back(min_count + extra - used, arg.get());
+                n -= extra;
             }
             return result;
         }
@@ -89,16 +91,20 @@ namespace argos
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command,
-                                     size_t argument_count,
-                                     size_t initial_count)
+                                     size_t argument_count)
         : m_counters(make_argument_counters(command, argument_count)),
           m_first_optional(m_counters.size())
     {
-        for (size_t i = 0; i < initial_count; ++i)
-        {
-            if (next_argument() == nullptr)
-                break;
-        }
+    }
+
+    ArgumentCounter::ArgumentCounter(const CommandData& command,
+                                     size_t argument_count,
+                                     const ArgumentCounter& previous)
+        : m_counters(make_argument_counters(command, argument_count,
+                                            previous.m_received)),
+          m_first_optional(m_counters.size()),
+          m_received(previous.m_received)
+    {
     }
 
     const ArgumentData* ArgumentCounter::next_argument()
@@ -109,14 +115,14 @@ namespace argos
         if (m_index == m_counters.size())
             return nullptr;
 
-        ++m_counter;
+        m_received.push_back(m_counters[m_index].second);
         --m_counters[m_index].first;
         return m_counters[m_index].second;
     }
 
     size_t ArgumentCounter::count() const
     {
-        return m_counter;
+        return m_received.size();
     }
 
     bool ArgumentCounter::is_complete() const
diff --git a/src/Argos/ArgumentCounter.hpp b/src/Argos/ArgumentCounter.hpp
index bcf71fd..4ee0f4c 100644
--- a/src/Argos/ArgumentCounter.hpp
+++ b/src/Argos/ArgumentCounter.hpp
@@ -19,9 +19,16 @@ namespace argos
 
         explicit ArgumentCounter(const CommandData& command);
 
+        ArgumentCounter(const CommandData& command,
+                        size_t argument_count);
+
+        /**
+         * Make a counter for a command that has already received
+         * the arguments in @a previous.
+         */
         ArgumentCounter(const CommandData& command,
                         size_t argument_count,
-                        size_t initial_count = 0);
+                        const ArgumentCounter& previous);
 
         const ArgumentData* next_argument();
 
@@ -39,6 +46,6 @@ namespace argos
         std::vector<Counter> m_counters;
         size_t m_index = 0;
         size_t m_first_optional = 0;
-        size_t m_counter = 0;
+        std::vector<const ArgumentData*> m_received;
     };
 }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index e3616e0..df5368e 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -510,7 +510,7 @@ namespace argos
         auto current_count = m_argument_counter.count();
         auto total_count = current_count + count_arguments();
         m_argument_counter = ArgumentCounter(*m_command, total_count,
-                                             current_count);
+                                             m_argument_counter);
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
-- 
2.43.0


From 4f9eb48ec5261a52f0cb1ea1932f266c9998bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 21/30] fix: stop at the next sub-command when recounting
 arguments

---
 single_src/Argos/Argos.cpp         | 24 +++++++++++++++++++-----
 src/Argos/ArgumentIteratorImpl.cpp | 19 +++++++++++++++----
 src/Argos/ArgumentIteratorImpl.hpp |  5 ++++-
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 6938ba8..f0be147 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1064,13 +1064,16 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t received_count = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_multi_command(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
@@ -1610,7 +1613,7 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t received_count) const
     {
         size_t result = 0;
         auto it = m_iterator;
@@ -1655,8 +1658,11 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (received_count + result >= min_count
+                    && find_multi_command(*arg).first)
+                {
                     return result;
+                }
 
                 ++result;
             }
@@ -1667,8 +1673,11 @@ namespace argos
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (received_count + result >= min_count
+                && find_multi_command(*arg).first)
+            {
                 return result;
+            }
 
             ++result;
         }
@@ -1727,7 +1736,12 @@ namespace argos
     {
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
+        return find_multi_command(name);
+    }
 
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_multi_command(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -1759,7 +1773,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
+        auto total_count = current_count + count_arguments(current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              m_argument_counter);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index df5368e..2a90e1e 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -359,7 +359,7 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t received_count) const
     {
         size_t result = 0;
         auto it = m_iterator;
@@ -404,8 +404,11 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (received_count + result >= min_count
+                    && find_multi_command(*arg).first)
+                {
                     return result;
+                }
 
                 ++result;
             }
@@ -416,8 +419,11 @@ namespace argos
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (received_count + result >= min_count
+                && find_multi_command(*arg).first)
+            {
                 return result;
+            }
 
             ++result;
         }
@@ -476,7 +482,12 @@ namespace argos
     {
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
+        return find_multi_command(name);
+    }
 
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_multi_command(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -508,7 +519,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
+        auto total_count = current_count + count_arguments(current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              m_argument_counter);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index c4b249a..5a587b4 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -78,13 +78,16 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t received_count = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_multi_command(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
-- 
2.43.0


From b637a288f77aa63fb86c5385b05529aba4dedf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 22/30] fix: keep replaced and cleared values alive

---
 single_src/Argos/Argos.cpp        | 17 +++++++----------
 src/Argos/ParsedArgumentsImpl.cpp | 15 +++++----------
 src/Argos/ParsedArgumentsImpl.hpp |  2 ++
 3 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index f0be147..fce829a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -981,6 +981,8 @@ namespace argos
     private:
         /// The values received from ArgumentIteratorImpl.
         std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        /// Values that have been replaced or cleared.
+        std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_removed_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
@@ -5324,15 +5326,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -5345,7 +5340,9 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        // Keep the values, string_views may still refer to them.
+        while (auto node = m_values.extract(value_id))
+            m_removed_values.insert(std::move(node));
     }
 
     ValueId
diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index 15ef0ef..20dbcaa 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -91,15 +91,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -112,7 +105,9 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        // Keep the values, string_views may still refer to them.
+        while (auto node = m_values.extract(value_id))
+            m_removed_values.insert(std::move(node));
     }
 
     ValueId
diff --git a/src/Argos/ParsedArgumentsImpl.hpp b/src/Argos/ParsedArgumentsImpl.hpp
index aace419..1ebf6d8 100644
--- a/src/Argos/ParsedArgumentsImpl.hpp
+++ b/src/Argos/ParsedArgumentsImpl.hpp
@@ -77,6 +77,8 @@ namespace argos
     private:
         /// The values received from ArgumentIteratorImpl.
         std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        /// Values that have been replaced or cleared.
+        std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_removed_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
-- 
2.43.0


From 02dca045649f1c09dc7508dd89ee24651e994fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 23/30] fix: only recount the words that are still to be parsed
 as arguments

---
 single_src/Argos/Argos.cpp         | 66 ++++++++++++++++++------------
 src/Argos/ArgumentIteratorImpl.cpp | 44 ++++++++++++--------
 src/Argos/ArgumentIteratorImpl.hpp | 22 +++++-----
 3 files changed, 80 insertions(+), 52 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index fce829a..541e4aa 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1044,6 +1044,14 @@ namespace argos
         toplevel_parsed_arguments() const;
 
     private:
+        enum class State
+        {
+            ARGUMENTS_AND_OPTIONS,
+            ARGUMENTS_ONLY,
+            DONE,
+            ERROR
+        };
+
         enum class OptionResult
         {
             NORMAL,
@@ -1066,7 +1074,8 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments(size_t received_count = 0) const;
+        [[nodiscard]] size_t count_arguments(State state,
+                                             size_t received_count = 0) const;
 
         bool check_argument_and_option_counts();
 
@@ -1081,7 +1090,8 @@ namespace argos
 
         void reactivate_multi_command_parent(size_t index);
 
-        void update_arguments(const std::vector<std::string>& args);
+        void update_arguments(const std::vector<std::string>& args,
+                              State next_state);
 
         void error(const std::string& message = {});
 
@@ -1093,14 +1103,6 @@ namespace argos
         OptionIteratorWrapper m_iterator;
         ArgumentCounter m_argument_counter;
 
-        enum class State
-        {
-            ARGUMENTS_AND_OPTIONS,
-            ARGUMENTS_ONLY,
-            DONE,
-            ERROR
-        };
-
         State m_state = State::ARGUMENTS_AND_OPTIONS;
     };
 }
@@ -1323,7 +1325,8 @@ namespace argos
         else
         {
             m_argument_counter = ArgumentCounter(*m_command,
-                                                 count_arguments());
+                                                 count_arguments(
+                                                     State::ARGUMENTS_AND_OPTIONS));
         }
     }
 
@@ -1444,17 +1447,23 @@ namespace argos
             break;
         }
 
+        auto next_state = m_state;
+        if (opt.type == OptionType::LAST_OPTION)
+            next_state = State::ARGUMENTS_ONLY;
+        else if (opt.type != OptionType::NORMAL)
+            next_state = State::DONE;
+
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             opt.callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, next_state);
         }
         if (m_data->parser_settings.option_callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             m_data->parser_settings.option_callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, next_state);
         }
 
         switch (opt.type)
@@ -1552,14 +1561,14 @@ namespace argos
             {
                 CallbackArguments args(ArgumentView(argument), s, parsed_args);
                 argument->callback(args);
-                update_arguments(args.new_arguments);
+                update_arguments(args.new_arguments, m_state);
             }
 
             if (m_data->parser_settings.argument_callback)
             {
                 CallbackArguments args(ArgumentView(argument), s, parsed_args);
                 m_data->parser_settings.argument_callback(args);
-                update_arguments(args.new_arguments);
+                update_arguments(args.new_arguments, m_state);
             }
             return {IteratorResultCode::ARGUMENT, argument, s};
         }
@@ -1586,7 +1595,8 @@ namespace argos
         else
         {
             m_argument_counter = ArgumentCounter(*m_command,
-                                                 count_arguments());
+                                                 count_arguments(
+                                                     State::ARGUMENTS_AND_OPTIONS));
         }
         m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
@@ -1615,13 +1625,21 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments(size_t received_count) const
+    size_t ArgumentIteratorImpl::count_arguments(State state,
+                                                 size_t received_count) const
     {
+        if (state == State::DONE)
+            return 0;
+
         size_t result = 0;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        while (state == State::ARGUMENTS_AND_OPTIONS)
         {
+            const auto arg = it.next();
+            if (!arg)
+                break;
+
             const OptionData* option = nullptr;
             if (is_option(*arg, m_data->parser_settings.option_style))
             {
@@ -1636,8 +1654,6 @@ namespace argos
                 if (!option->argument.empty())
                     it.next_value();
 
-                bool arguments_only = false;
-
                 switch (option->type)
                 {
                 case OptionType::HELP:
@@ -1646,14 +1662,11 @@ namespace argos
                 case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
-                    arguments_only = true;
+                    state = State::ARGUMENTS_ONLY;
                     break;
                 default:
                     break;
                 }
-
-                if (arguments_only)
-                    break;
             }
             else if (!is_option(*arg, m_data->parser_settings.option_style))
             {
@@ -1765,7 +1778,8 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::update_arguments(
-        const std::vector<std::string>& args)
+        const std::vector<std::string>& args,
+        State next_state)
     {
         if (args.empty())
             return;
@@ -1775,7 +1789,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments(current_count);
+        auto total_count = current_count + count_arguments(next_state, current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              m_argument_counter);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 2a90e1e..156bc63 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -67,7 +67,8 @@ namespace argos
         else
         {
             m_argument_counter = ArgumentCounter(*m_command,
-                                                 count_arguments());
+                                                 count_arguments(
+                                                     State::ARGUMENTS_AND_OPTIONS));
         }
     }
 
@@ -188,17 +189,23 @@ namespace argos
             break;
         }
 
+        auto next_state = m_state;
+        if (opt.type == OptionType::LAST_OPTION)
+            next_state = State::ARGUMENTS_ONLY;
+        else if (opt.type != OptionType::NORMAL)
+            next_state = State::DONE;
+
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             opt.callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, next_state);
         }
         if (m_data->parser_settings.option_callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             m_data->parser_settings.option_callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, next_state);
         }
 
         switch (opt.type)
@@ -296,14 +303,14 @@ namespace argos
             {
                 CallbackArguments args(ArgumentView(argument), s, parsed_args);
                 argument->callback(args);
-                update_arguments(args.new_arguments);
+                update_arguments(args.new_arguments, m_state);
             }
 
             if (m_data->parser_settings.argument_callback)
             {
                 CallbackArguments args(ArgumentView(argument), s, parsed_args);
                 m_data->parser_settings.argument_callback(args);
-                update_arguments(args.new_arguments);
+                update_arguments(args.new_arguments, m_state);
             }
             return {IteratorResultCode::ARGUMENT, argument, s};
         }
@@ -330,7 +337,8 @@ namespace argos
         else
         {
             m_argument_counter = ArgumentCounter(*m_command,
-                                                 count_arguments());
+                                                 count_arguments(
+                                                     State::ARGUMENTS_AND_OPTIONS));
         }
         m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
@@ -359,13 +367,21 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments(size_t received_count) const
+    size_t ArgumentIteratorImpl::count_arguments(State state,
+                                                 size_t received_count) const
     {
+        if (state == State::DONE)
+            return 0;
+
         size_t result = 0;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        while (state == State::ARGUMENTS_AND_OPTIONS)
         {
+            const auto arg = it.next();
+            if (!arg)
+                break;
+
             const OptionData* option = nullptr;
             if (is_option(*arg, m_data->parser_settings.option_style))
             {
@@ -380,8 +396,6 @@ namespace argos
                 if (!option->argument.empty())
                     it.next_value();
 
-                bool arguments_only = false;
-
                 switch (option->type)
                 {
                 case OptionType::HELP:
@@ -390,14 +404,11 @@ namespace argos
                 case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
-                    arguments_only = true;
+                    state = State::ARGUMENTS_ONLY;
                     break;
                 default:
                     break;
                 }
-
-                if (arguments_only)
-                    break;
             }
             else if (!is_option(*arg, m_data->parser_settings.option_style))
             {
@@ -509,7 +520,8 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::update_arguments(
-        const std::vector<std::string>& args)
+        const std::vector<std::string>& args,
+        State next_state)
     {
         if (args.empty())
             return;
@@ -519,7 +531,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments(current_count);
+        auto total_count = current_count + count_arguments(next_state, current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              m_argument_counter);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 5a587b4..2f0c768 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -56,6 +56,14 @@ namespace argos
         toplevel_parsed_arguments() const;
 
     private:
+        enum class State
+        {
+            ARGUMENTS_AND_OPTIONS,
+            ARGUMENTS_ONLY,
+            DONE,
+            ERROR
+        };
+
         enum class OptionResult
         {
             NORMAL,
@@ -78,7 +86,8 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments(size_t received_count = 0) const;
+        [[nodiscard]] size_t count_arguments(State state,
+                                             size_t received_count = 0) const;
 
         bool check_argument_and_option_counts();
 
@@ -93,7 +102,8 @@ namespace argos
 
         void reactivate_multi_command_parent(size_t index);
 
-        void update_arguments(const std::vector<std::string>& args);
+        void update_arguments(const std::vector<std::string>& args,
+                              State next_state);
 
         void error(const std::string& message = {});
 
@@ -105,14 +115,6 @@ namespace argos
         OptionIteratorWrapper m_iterator;
         ArgumentCounter m_argument_counter;
 
-        enum class State
-        {
-            ARGUMENTS_AND_OPTIONS,
-            ARGUMENTS_ONLY,
-            DONE,
-            ERROR
-        };
-
         State m_state = State::ARGUMENTS_AND_OPTIONS;
     };
 }
-- 
2.43.0


From f7f52306b005c5b09a4b1e32015e25a32f1f4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 24/30] fix: share values between all options and arguments
 linked by an alias

---
 single_src/Argos/Argos.cpp | 89 ++++++++++++++++++++------------------
 src/Argos/CommandData.cpp  | 89 ++++++++++++++++++++------------------
 2 files changed, 94 insertions(+), 84 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 541e4aa..d628a70 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3429,75 +3429,80 @@ namespace argos
         {
             struct InternalIdMaker
             {
+                const CommandData& cmd;
                 std::map<std::string_view, ValueId> explicit_ids;
                 int id;
 
-                explicit InternalIdMaker(ValueId start_id)
-                    : id(start_id)
+                InternalIdMaker(const CommandData& cmd, ValueId start_id)
+                    : cmd(cmd),
+                      id(start_id)
                 {
                 }
 
-                std::optional<ValueId> find_value_id(std::string_view name)
+                /**
+                 * Returns the id shared by everything with any of the
+                 * given names.
+                 */
+                ValueId get_value_id(const std::vector<std::string_view>& names)
                 {
-                    const auto it = explicit_ids.find(name);
-                    if (it == explicit_ids.end())
-                        return {};
-                    return it->second;
-                }
-
-                ValueId get_value_id(std::string_view name)
-                {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    ValueId result = {};
+                    for (const auto& name : names)
+                    {
+                        const auto it = explicit_ids.find(name);
+                        if (it == explicit_ids.end())
+                            continue;
+                        if (result == ValueId())
+                            result = it->second;
+                        else if (it->second != result)
+                            replace_value_id(it->second, result);
+                    }
+                    if (result == ValueId())
+                        result = ValueId(++id);
+                    for (const auto& name : names)
+                        explicit_ids.emplace(name, result);
+                    return result;
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace_value_id(ValueId old_id, ValueId new_id)
                 {
-                    for (const auto& name : names)
+                    for (auto& [_, value_id] : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == old_id)
+                            value_id = new_id;
+                    }
+                    for (const auto& a : cmd.arguments)
+                    {
+                        if (a->value_id == old_id)
+                            a->value_id = new_id;
+                    }
+                    for (const auto& o : cmd.options)
+                    {
+                        if (o->value_id == old_id)
+                            o->value_id = new_id;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
             int argument_id = argument_id_offset;
-            InternalIdMaker id_maker(value_id_offset);
+            InternalIdMaker id_maker(cmd, value_id_offset);
             for (const auto& a : cmd.arguments)
             {
                 a->argument_id = ArgumentId(++argument_id);
+                std::vector<std::string_view> names{a->name};
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    names.emplace_back(a->alias);
+                a->value_id = id_maker.get_value_id(names);
             }
             for (const auto& o : cmd.options)
             {
                 o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                o->value_id = id_maker.get_value_id(names);
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 08ffbce..1ef7dc1 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -342,75 +342,80 @@ namespace argos
         {
             struct InternalIdMaker
             {
+                const CommandData& cmd;
                 std::map<std::string_view, ValueId> explicit_ids;
                 int id;
 
-                explicit InternalIdMaker(ValueId start_id)
-                    : id(start_id)
+                InternalIdMaker(const CommandData& cmd, ValueId start_id)
+                    : cmd(cmd),
+                      id(start_id)
                 {
                 }
 
-                std::optional<ValueId> find_value_id(std::string_view name)
+                /**
+                 * Returns the id shared by everything with any of the
+                 * given names.
+                 */
+                ValueId get_value_id(const std::vector<std::string_view>& names)
                 {
-                    const auto it = explicit_ids.find(name);
-                    if (it == explicit_ids.end())
-                        return {};
-                    return it->second;
-                }
-
-                ValueId get_value_id(std::string_view name)
-                {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    ValueId result = {};
+                    for (const auto& name : names)
+                    {
+                        const auto it = explicit_ids.find(name);
+                        if (it == explicit_ids.end())
+                            continue;
+                        if (result == ValueId())
+                            result = it->second;
+                        else if (it->second != result)
+                            replace_value_id(it->second, result);
+                    }
+                    if (result == ValueId())
+                        result = ValueId(++id);
+                    for (const auto& name : names)
+                        explicit_ids.emplace(name, result);
+                    return result;
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace_value_id(ValueId old_id, ValueId new_id)
                 {
-                    for (const auto& name : names)
+                    for (auto& [_, value_id] : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == old_id)
+                            value_id = new_id;
+                    }
+                    for (const auto& a : cmd.arguments)
+                    {
+                        if (a->value_id == old_id)
+                            a->value_id = new_id;
+                    }
+                    for (const auto& o : cmd.options)
+                    {
+                        if (o->value_id == old_id)
+                            o->value_id = new_id;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
             int argument_id = argument_id_offset;
-            InternalIdMaker id_maker(value_id_offset);
+            InternalIdMaker id_maker(cmd, value_id_offset);
             for (const auto& a : cmd.arguments)
             {
                 a->argument_id = ArgumentId(++argument_id);
+                std::vector<std::string_view> names{a->name};
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    names.emplace_back(a->alias);
+                a->value_id = id_maker.get_value_id(names);
             }
             for (const auto& o : cmd.options)
             {
                 o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                o->value_id = id_maker.get_value_id(names);
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
-- 
2.43.0


From b87c7909c8fb3c457eb3fbe2cf8f4ff89ada4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 25/30] fix: do not let alignment leak into the text that
 follows

---
 single_src/Argos/Argos.cpp  | 22 +++++++++++-----------
 src/Argos/TextFormatter.cpp | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d628a70..40bcaeb 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6146,18 +6146,18 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (!m_writer.is_current_line_empty()
+            && m_state != State::UNALIGNED_MARKER
+            && m_state != State::ALIGNED_MARKER)
         {
-            push_indentation(CURRENT_COLUMN);
-            m_state = State::ALIGNMENT;
-        }
-        else if (m_state == State::ALIGNED_MARKER)
-        {
-            pop_indentation();
-            push_indentation(CURRENT_COLUMN);
-            m_state = State::ALIGNMENT;
+            return;
         }
+
+        const auto column = m_writer.current_width();
+        end_alignment();
+        m_writer.set_spaces(0);
+        push_indentation(column);
+        m_state = State::ALIGNMENT;
     }
 
     void TextFormatter::update_alignment(const std::string_view& token)
@@ -6175,8 +6175,8 @@ namespace argos
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
         {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
         }
+        m_state = State::NO_ALIGNMENT;
     }
 }
 
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ba3225b..f221bd4 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -246,18 +246,18 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (!m_writer.is_current_line_empty()
+            && m_state != State::UNALIGNED_MARKER
+            && m_state != State::ALIGNED_MARKER)
         {
-            push_indentation(CURRENT_COLUMN);
-            m_state = State::ALIGNMENT;
-        }
-        else if (m_state == State::ALIGNED_MARKER)
-        {
-            pop_indentation();
-            push_indentation(CURRENT_COLUMN);
-            m_state = State::ALIGNMENT;
+            return;
         }
+
+        const auto column = m_writer.current_width();
+        end_alignment();
+        m_writer.set_spaces(0);
+        push_indentation(column);
+        m_state = State::ALIGNMENT;
     }
 
     void TextFormatter::update_alignment(const std::string_view& token)
@@ -275,7 +275,7 @@ namespace argos
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
         {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
         }
+        m_state = State::NO_ALIGNMENT;
     }
 }
-- 
2.43.0


From b840fcaed3651aef441b643177c8094b4692d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 26/30] fix: make a value found through a view refer to its
 origin

---
 single_src/Argos/Argos.cpp           | 4 ++--
 src/Argos/ParsedArguments.cpp        | 2 +-
 src/Argos/ParsedArgumentsBuilder.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 40bcaeb..198d34a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4966,7 +4966,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
@@ -5205,7 +5205,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index 3be60d8..27b9644 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -70,7 +70,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArgumentsBuilder.cpp b/src/Argos/ParsedArgumentsBuilder.cpp
index c189735..fac5a32 100644
--- a/src/Argos/ParsedArgumentsBuilder.cpp
+++ b/src/Argos/ParsedArgumentsBuilder.cpp
@@ -76,7 +76,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
-- 
2.43.0


From 271b89d2672d6fde5b0b91d2837ad973b4fff198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 27/30] fix: do not wrap negative numbers read as unsigned

---
 single_src/Argos/Argos.cpp | 12 +++++++++---
 src/Argos/ParseValue.cpp   | 13 ++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 198d34a..d4a2023 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4792,9 +4792,15 @@ namespace argos
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_int<T>(str.c_str(), &endp, base);
-            if (endp == str.c_str() + str.size() && errno == 0)
-                return value;
-            return {};
+            if (endp != str.c_str() + str.size() || errno != 0)
+                return {};
+            if constexpr (std::is_unsigned_v<T>)
+            {
+                // strtoul and strtoull wrap negative numbers.
+                if (value != 0 && str.find('-') != std::string::npos)
+                    return {};
+            }
+            return value;
         }
     }
 
diff --git a/src/Argos/ParseValue.cpp b/src/Argos/ParseValue.cpp
index 6a58cff..0641e4e 100644
--- a/src/Argos/ParseValue.cpp
+++ b/src/Argos/ParseValue.cpp
@@ -11,6 +11,7 @@
 #include <cerrno>
 #include <climits>
 #include <cstdlib>
+#include <type_traits>
 #include "StringUtilities.hpp"
 
 namespace argos
@@ -54,9 +55,15 @@ namespace argos
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_int<T>(str.c_str(), &endp, base);
-            if (endp == str.c_str() + str.size() && errno == 0)
-                return value;
-            return {};
+            if (endp != str.c_str() + str.size() || errno != 0)
+                return {};
+            if constexpr (std::is_unsigned_v<T>)
+            {
+                // strtoul and strtoull wrap negative numbers.
+                if (value != 0 && str.find('-') != std::string::npos)
+                    return {};
+            }
+            return value;
         }
     }
 
-- 
2.43.0


From 6a2c89fb8c28b34ce236f5dfd32306e45fab1820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:05 +0000
Subject: [PATCH 28/30] fix: parsed_arguments of an iterator gives the complete
 result

Inside a sub-command it returned the result of that command only, so that
what a client got depended on when it was called.
---
 single_src/Argos/Argos.cpp     | 2 +-
 src/Argos/ArgumentIterator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d4a2023..5b3764f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1172,7 +1172,7 @@ namespace argos
 
     ParsedArguments ArgumentIterator::parsed_arguments() const
     {
-        return ParsedArguments(impl().parsed_arguments());
+        return ParsedArguments(impl().toplevel_parsed_arguments());
     }
 
     ArgumentIteratorImpl& ArgumentIterator::impl()
diff --git a/src/Argos/ArgumentIterator.cpp b/src/Argos/ArgumentIterator.cpp
index d6c8d09..cd1f59a 100644
--- a/src/Argos/ArgumentIterator.cpp
+++ b/src/Argos/ArgumentIterator.cpp
@@ -67,7 +67,7 @@ namespace argos
 
     ParsedArguments ArgumentIterator::parsed_arguments() const
     {
-        return ParsedArguments(impl().parsed_arguments());
+        return ParsedArguments(impl().toplevel_parsed_arguments());
     }
 
     ArgumentIteratorImpl& ArgumentIterator::impl()
-- 
2.43.0


From a838a5ccf467150176fbb36eda559684abd278a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 29/30] fix: CommandView::help returns the help text

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandView.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 5b3764f..3499d38 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3566,7 +3566,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
diff --git a/src/Argos/CommandView.cpp b/src/Argos/CommandView.cpp
index d1f9cef..087a2d1 100644
--- a/src/Argos/CommandView.cpp
+++ b/src/Argos/CommandView.cpp
@@ -18,7 +18,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
-- 
2.43.0


From d603ad7a25e1aec40569ab7ef2c54e0cbdc0463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 30/30] fix: do not crash when a command is copied from itself

---
 single_src/Argos/Argos.cpp | 3 +++
 src/Argos/CommandData.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 3499d38..044ad56 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3241,6 +3241,9 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if (&cmd == this)
+            return copy_from(CommandData(cmd));
+
         if ((!arguments.empty() || !cmd.arguments.empty())
             && (!commands.empty() || !cmd.commands.empty()))
         {
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 1ef7dc1..06b0a75 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -154,6 +154,9 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if (&cmd == this)
+            return copy_from(CommandData(cmd));
+
         if ((!arguments.empty() || !cmd.arguments.empty())
             && (!commands.empty() || !cmd.commands.empty()))
         {
-- 
2.43.0

