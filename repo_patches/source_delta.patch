From ea723d841d1eee47d29a661bba4956dded277673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 01/12] fix: keep the original token of a long option given
 with a single dash

---
 src/cmdline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 8f4ae64..72a7e46 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -648,10 +648,15 @@ namespace boost { namespace program_options { namespace detail {
                                          is_style_active(long_case_insensitive),
                                          is_style_active(short_case_insensitive)))
                 {
+                    // parse as "--name", but record the token as it was given
+                    const string original_token = tok;
                     args[0].insert(0, "-");
                     if (args[0][1] == '/')
                         args[0][1] = '-';
-                    return parse_long_option(args);
+                    vector<option> result = parse_long_option(args);
+                    for (unsigned i = 0; i < result.size(); ++i)
+                        result[i].original_tokens.assign(1, original_token);
+                    return result;
                 }
             } 
             catch(error_with_option_name& e)
-- 
2.43.0


From 9581be7dbd19ad3a65236d1736ad405a04fdc885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 02/12] fix: error messages with placeholder-like option names
 or values

replace_token never terminated when the replacement contained the
placeholder itself (e.g. --num=%value%), and placeholders inside user
text were expanded again.
---
 src/value_semantic.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index de7b2ac..e21ae57 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -348,9 +348,30 @@ namespace boost { namespace program_options {
         //  replace placeholder with values
         //  placeholder are denoted by surrounding '%'
         // 
-        for (map<string, string>::iterator iter = substitutions.begin();
-              iter != substitutions.end(); ++iter)
-            replace_token('%' + iter->first + '%', iter->second);
+        //  The message is scanned once, and substituted text is not scanned
+        //  again: option names and values may contain placeholders themselves
+        // 
+        string result;
+        std::size_t done = 0, start = m_message.find('%');
+        while (start != string::npos)
+        {
+            std::size_t end = m_message.find('%', start + 1);
+            if (end == string::npos)
+                break;
+            map<string, string>::const_iterator found =
+                substitutions.find(m_message.substr(start + 1, end - start - 1));
+            if (found == substitutions.end())
+            {
+                start = end;
+                continue;
+            }
+            result.append(m_message, done, start - done);
+            result.append(found->second);
+            done = end + 1;
+            start = m_message.find('%', done);
+        }
+        result.append(m_message, done, string::npos);
+        m_message.swap(result);
     }
 
 
-- 
2.43.0


From 0049ee285435d5d505b29027e17d0b9a27b0b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 03/12] fix: do not read before the start of an empty section
 name in a config file

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index d586523..6e3ad5e 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -97,7 +97,7 @@ namespace boost { namespace program_options { namespace detail {
                 // Handle section name
                 if (*s.begin() == '[' && *s.rbegin() == ']') {
                     m_prefix = s.substr(1, s.size()-2);
-                    if (*m_prefix.rbegin() != '.')
+                    if (!m_prefix.empty() && *m_prefix.rbegin() != '.')
                         m_prefix += '.';
                 }
                 else if ((n = s.find('=')) != string::npos) {
-- 
2.43.0


From ed04f3e4982507b4947bb8f4abcb0dd6ea240d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 04/12] fix: out-of-bounds access when an option without
 original token is ambiguous

---
 src/cmdline.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 72a7e46..b9aed19 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -311,7 +311,10 @@ namespace boost { namespace program_options { namespace detail {
             catch(error_with_option_name& e)
             {
                 // add context and rethrow
-                e.add_context(opt.string_key, opt.original_tokens[0], get_canonical_option_prefix());
+                // (grouped short options have no original token of their own)
+                e.add_context(opt.string_key,
+                              opt.original_tokens.empty() ? opt.string_key : opt.original_tokens[0],
+                              get_canonical_option_prefix());
                 throw;
             }
 
-- 
2.43.0


From 05d7ff58b6a42e2c5653af917ac6aa52056245de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 05/12] fix: compare short names with the short, not the long,
 case sensitivity

With case-insensitive long but case-sensitive short options -B selected
-b, and a declared -B could not be selected at all; with only
short_case_insensitive upper case short options were not recognised.
---
 src/options_description.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 0efdc33..662ff93 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -116,7 +116,8 @@ namespace boost { namespace program_options {
         {
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
 
-            if (local_short_name == local_option)
+            // the option was lowercased above according to the rule for long names
+            if (local_short_name == (short_ignore_case ? tolower_(option) : option))
             {
                 result = full_match;
             }
-- 
2.43.0


From 6e0586b081579ca42269c22b6f39d66bb9c4524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 06/12] fix: storing an option matched case-insensitively by a
 wildcard

---
 src/variables_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index 94ac614..76577d3 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -70,8 +70,11 @@ namespace boost { namespace program_options {
 
                 original_token = options.options[i].original_tokens.size() ?
                                         options.options[i].original_tokens[0]     : "";
+                // Use the case sensitivity the option was parsed with:
+                // names matched by a wildcard are stored as given.
+                const bool ignore_case = options.options[i].case_insensitive;
                 const option_description& d = desc.find(option_name, false,
-                                                        false, false);
+                                                        ignore_case, ignore_case);
 
                 variable_value& v = m[option_name];
                 if (v.defaulted()) {
-- 
2.43.0


From e458af433c6a82b15d8c609d2b45e1ced5d66c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 07/12] fix: skip environment strings that are not of the form
 name=value

They tripped an assertion.
---
 include/boost/program_options/environment_iterator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/program_options/environment_iterator.hpp b/include/boost/program_options/environment_iterator.hpp
index 933919d..3e96ce6 100644
--- a/include/boost/program_options/environment_iterator.hpp
+++ b/include/boost/program_options/environment_iterator.hpp
@@ -11,6 +11,7 @@
 #include <utility>
 #include <string>
 #include <cassert>
+#include <cstring>
 
 namespace boost {
 
@@ -32,6 +33,10 @@ namespace boost {
         
         void get()
         {
+            // execve does not ensure that all strings have the form "name=value"
+            while (*m_environment && !std::strchr(*m_environment, '='))
+                ++m_environment;
+
             if (*m_environment == 0)
                 found_eof();
             else {
-- 
2.43.0


From 92612a30e41a17c93f9e7d8225c0ab61dce9479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 08/12] fix: report an invalid bool value as given, not
 lower-cased

---
 src/value_semantic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index e21ae57..988e85d 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -159,7 +159,7 @@ namespace boost { namespace program_options {
         else if (s == "off" || s == "no" || s == "0" || s == "false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(s));
+            boost::throw_exception(invalid_bool_value(get_single_string(xs, true)));
     }
 
     // This is blatant copy-paste. However, templating this will cause a problem,
@@ -181,7 +181,7 @@ namespace boost { namespace program_options {
         else if (s == L"off" || s == L"no" || s == L"0" || s == L"false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(convert_value(s)));
+            boost::throw_exception(invalid_bool_value(convert_value(get_single_string(xs, true))));
     }
 #endif
     BOOST_PROGRAM_OPTIONS_DECL 
-- 
2.43.0


From 438492a079b7e7cbc21ad55d1a70d910122d4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 09/12] fix: ignore a tab outside the first line of a
 description, as documented, instead of asserting

---
 src/options_description.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 662ff93..68e53a8 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -465,10 +465,6 @@ namespace boost { namespace program_options {
                 // erase tab from string
                 par.erase(par_indent, 1);
 
-                // this assert may fail due to user error or 
-                // environment conditions!
-                assert(par_indent < line_length);
-
                 // ignore tab if not on first line
                 if (par_indent >= line_length)
                 {
-- 
2.43.0


From dc8a46e1bca4e26bd28b5140c0b84b571b316b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 10/12] fix: keep the case_insensitive flag of options parsed
 from wide strings

---
 src/parsers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 4dac608..675643a 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -75,6 +75,7 @@ namespace boost { namespace program_options {
             result.string_key = opt.string_key;
             result.position_key = opt.position_key;
             result.unregistered = opt.unregistered;
+            result.case_insensitive = opt.case_insensitive;
             
             std::transform(opt.value.begin(), opt.value.end(),
                            back_inserter(result.value),
-- 
2.43.0


From 51fd0a60ca4fab4b70a3969caeb4f355f1af1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 11/12] fix: store a std::string for a wide option of type
 std::string

---
 src/value_semantic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 988e85d..1c045b7 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -196,7 +196,7 @@ namespace boost { namespace program_options {
     void validate(any& v, const vector<wstring>& xs, std::string*, int)
     {
         check_first_occurrence(v);
-        v = any(get_single_string(xs));
+        v = any(to_local_8_bit(get_single_string(xs)));
     }
 #endif
 
-- 
2.43.0


From bfe0e9fa49ad914c3a2e27aa7f20ecf2de33acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 12/12] fix: name the unknown option when it has no original
 token

store() of an option that came from the environment or was put together by
the program, and is not in the description, raised "unrecognised option ''":
errors without an option name show the original token, and such options have
none. Use the option's name then.
---
 src/variables_map.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index 76577d3..0d0c939 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -96,6 +96,15 @@ namespace boost { namespace program_options {
             }
         }
 #ifndef BOOST_NO_EXCEPTIONS
+        catch(error_with_no_option_name& e)
+        {
+            // these show the original token only, which options that do
+            // not come from the command line or a file may not have
+            e.add_context(option_name,
+                          original_token.empty() ? option_name : original_token,
+                          options.m_options_prefix);
+            throw;
+        }
         catch(error_with_option_name& e)
         {
             // add context and rethrow
-- 
2.43.0

