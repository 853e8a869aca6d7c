From b236bf0ab592c3ee966c1b4797d0637bfeec682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 01/25] fix: parser looped forever on files not ending in a
 newline

At end of input next_line() kept the previous line as current line, so a
final comment or continuation string without newline was processed again
and again, and a complete last entry was followed by a bogus error.
---
 src/po_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ff56796..995930a 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -89,7 +89,12 @@ POParser::next_line()
 {
   line_number += 1;
   if (!std::getline(in, current_line))
+  {
+    // getline() leaves the previous line in place when there is nothing
+    // left to read
+    current_line.clear();
     eof = true;
+  }
 }
 
 void
-- 
2.43.0


From 795b4542db45d35a781d431251245c2cf792a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 02/25] fix: error recovery skipped the entry after an
 incomplete one

When the error is found at the empty line that ends the broken entry, that
line already is the start of the next entry.
---
 src/po_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 995930a..5e5f67d 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -77,9 +77,8 @@ POParser::error(const std::string& msg)
   log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
 
   // Try to recover from an error by searching for start of another entry
-  do
+  while(!eof && !is_empty_line())
     next_line();
-  while(!eof && !is_empty_line());
 
   throw POParserError();
 }
-- 
2.43.0


From ffb3f0dfbfbfa3dc652499ac12fede215bf87bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 03/25] fix: DictionaryManager::set_use_fuzzy() had no effect

---
 include/tinygettext/po_parser.hpp | 5 +++--
 src/dictionary_manager.cpp        | 2 +-
 src/po_parser.cpp                 | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 99c03aa..e98cad8 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -65,8 +65,9 @@ private:
 public:
   /** @param filename name of the istream, only used in error messages
       @param in stream from which the PO file is read.
-      @param dict dictionary to which the strings are written */
-  static void parse(const std::string& filename, std::istream& in, Dictionary& dict);
+      @param dict dictionary to which the strings are written
+      @param use_fuzzy whether translations marked as fuzzy are used */
+  static void parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy = true);
   static bool pedantic;
 
 private:
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6175d76..6b028b5 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -162,7 +162,7 @@ DictionaryManager::get_dictionary(const Language& language)
           }
           else
           {
-            POParser::parse(pofile, *in, *dict);
+            POParser::parse(pofile, *in, *dict, use_fuzzy);
           }
         }
         catch(std::exception& e)
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 5e5f67d..41e6589 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -38,9 +38,9 @@ namespace tinygettext {
 bool POParser::pedantic = true;
 
 void
-POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict)
+POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy)
 {
-  POParser parser(filename, in, dict);
+  POParser parser(filename, in, dict, use_fuzzy);
   parser.parse();
 }
 
-- 
2.43.0


From dc17f6069a37b510d5d2ec4ed7e4322ad45dc107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 04/25] fix: a dictionary whose loading failed stayed in the
 cache half-loaded

An exception from FileSystem::open_directory() left the incomplete
dictionary in the cache, so the next request returned it as if complete.
---
 src/dictionary_manager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6b028b5..c2c11b6 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -114,9 +114,7 @@ DictionaryManager::get_dictionary(const Language& language)
   else // Dictionary for languages lang isn't loaded, so we load it
   {
     //log_debug << "get_dictionary: " << lang << std::endl;
-    Dictionary* dict = new Dictionary(charset);
-
-    dictionaries[language] = dict;
+    std::unique_ptr<Dictionary> dict(new Dictionary(charset));
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
@@ -178,7 +176,10 @@ DictionaryManager::get_dictionary(const Language& language)
         // printf("Adding language fallback %s\n", language.get_language().c_str());
         dict->addFallback( &get_dictionary(Language::from_spec(language.get_language())) );
     }
-    return *dict;
+
+    // Only keep the dictionary once it is completely loaded, the
+    // FileSystem might have thrown an exception
+    return *(dictionaries[language] = dict.release());
   }
 }
 
-- 
2.43.0


From bc52702142bddc58190f96bb982f1611493ac6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 05/25] fix: get_languages() listed undefined and wrong
 languages

Files of unknown languages were listed as an undefined language, which
get_dictionary() must not be called with, and the country of lower case
file names (zh_tw.po) was lost.
---
 src/dictionary_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index c2c11b6..6e16f32 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -196,7 +196,9 @@ DictionaryManager::get_languages()
     {
       if (has_suffix(*file, ".po"))
       {
-        languages.insert(Language::from_env(file->substr(0, file->size()-3)));
+        Language language = Language::from_env(convertFilename2Language(*file));
+        if (language)
+          languages.insert(language);
       }
     }
   }
-- 
2.43.0


From 828bfc7645fad57e0efb536ba0c22cfb0a376a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 06/25] fix: convertFilename2Language() threw on names shorter
 than 3 characters

---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6e16f32..954e98e 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -274,7 +274,7 @@ DictionaryManager::remove_directory(const std::string& pathname)
 std::string DictionaryManager::convertFilename2Language(const std::string &s_in) const
 {
     std::string s;
-    if(s_in.substr(s_in.size()-3, 3)==".po")
+    if(has_suffix(s_in, ".po"))
         s = s_in.substr(0, s_in.size()-3);
     else
         s = s_in;
-- 
2.43.0


From b9eccd0801d43a85bd64929bdf41366ae2275907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/25] fix: .po files that could not be opened were not
 reported

UnixFileSystem::open_file() always returns a stream, also when opening the
file failed.
---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 954e98e..7397b26 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -154,7 +154,7 @@ DictionaryManager::get_dictionary(const Language& language)
         try
         {
           std::unique_ptr<std::istream> in = filesystem->open_file(pofile);
-          if (!in)
+          if (!in || !*in)
           {
             log_error << "error: failure opening: " << pofile << std::endl;
           }
-- 
2.43.0


From 44e03bb6590d5a55b8e666264e5a37d6b284ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 08/25] fix: read errors in .po files were not reported

A stream that fails while being read (or a directory opened as file) was
treated as an ordinary end of file.
---
 src/dictionary_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 7397b26..f135a89 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -161,6 +161,8 @@ DictionaryManager::get_dictionary(const Language& language)
           else
           {
             POParser::parse(pofile, *in, *dict, use_fuzzy);
+            if (in->bad())
+              log_error << "error: failure reading: " << pofile << std::endl;
           }
         }
         catch(std::exception& e)
-- 
2.43.0


From 8ddfddd1c59182415805b18733043cc2ab5705f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 09/25] fix: translate() returned an empty text for
 untranslated messages

A plural entry whose first form is empty, or a text of which nothing could
be converted, is not translated, same as in translate_plural().
---
 src/dictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index b61d215..92cdd8c 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -124,7 +124,7 @@ std::string
 Dictionary::translate(const Entries& dict, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
-  if (i != dict.end() && !i->second.empty())
+  if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
   {
     return i->second[0];
   }
-- 
2.43.0


From 3765429194b7657bd74d3e86d9815a1b6692aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 10/25] fix: translate_plural() returned the singular when a
 plural form was missing

---
 src/dictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index 92cdd8c..cc61cd4 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -89,10 +89,9 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     {
       log_error << "Plural translation not available (and not set to empty): '" << msgid << "'" << std::endl;
       log_error << "Missing plural form: " << n << std::endl;
-      return msgid;
     }
 
-    if (!msgstrs[n].empty())
+    if (n < msgstrs.size() && !msgstrs[n].empty())
       return msgstrs[n];
     else
       if (count == 1) // default to english rules
-- 
2.43.0


From 94d62fb40c09106fc97afbb681e70ebb44a6a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 11/25] fix: fallback dictionaries ignored contexts and plurals

A message in a context was answered by the fallback's translation for no
context if the context was known, and not at all otherwise; plural messages
were never looked up in the fallback.
---
 include/tinygettext/dictionary.hpp |  7 +++--
 src/dictionary.cpp                 | 49 +++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/include/tinygettext/dictionary.hpp b/include/tinygettext/dictionary.hpp
index 958f4a3..3c732c5 100644
--- a/include/tinygettext/dictionary.hpp
+++ b/include/tinygettext/dictionary.hpp
@@ -43,8 +43,11 @@ private:
   std::string charset;
   PluralForms plural_forms;
 
-  std::string translate(const Entries& dict, const std::string& msgid) const;
-  std::string translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgidplural, int num) const;
+  std::string translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const;
+  std::string translate_plural(const Entries& dict, const std::string* msgctxt,
+                               const std::string& msgid, const std::string& msgidplural, int num) const;
+  std::string fallback_plural(const std::string* msgctxt,
+                              const std::string& msgid, const std::string& msgidplural, int num) const;
 
   bool m_has_fallback;
   Dictionary* m_fallback;
diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index cc61cd4..00b3f53 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -74,11 +74,12 @@ Dictionary::get_plural_forms() const
 std::string
 Dictionary::translate_plural(const std::string& msgid, const std::string& msgid_plural, int num) const
 {
-  return translate_plural(entries, msgid, msgid_plural, num);
+  return translate_plural(entries, nullptr, msgid, msgid_plural, num);
 }
 
 std::string
-Dictionary::translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgid_plural, int count) const
+Dictionary::translate_plural(const Entries& dict, const std::string* msgctxt,
+                             const std::string& msgid, const std::string& msgid_plural, int count) const
 {
   Entries::const_iterator it = dict.find(msgid);
   if (it != dict.end())
@@ -94,10 +95,7 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     if (n < msgstrs.size() && !msgstrs[n].empty())
       return msgstrs[n];
     else
-      if (count == 1) // default to english rules
-        return msgid;
-      else
-        return msgid_plural;
+      return fallback_plural(msgctxt, msgid, msgid_plural, count);
   }
   else
   {
@@ -106,6 +104,23 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     for (it = dict.begin(); it != dict.end(); ++it)
       log_info << "'" << it->first << "'" << std::endl;
 
+    return fallback_plural(msgctxt, msgid, msgid_plural, count);
+  }
+}
+
+std::string
+Dictionary::fallback_plural(const std::string* msgctxt,
+                            const std::string& msgid, const std::string& msgid_plural, int count) const
+{
+  if (m_has_fallback)
+  {
+    if (msgctxt)
+      return m_fallback->translate_ctxt_plural(*msgctxt, msgid, msgid_plural, count);
+    else
+      return m_fallback->translate_plural(msgid, msgid_plural, count);
+  }
+  else
+  {
     if (count == 1) // default to english rules
       return msgid;
     else
@@ -116,11 +131,11 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
 std::string
 Dictionary::translate(const std::string& msgid) const
 {
-  return translate(entries, msgid);
+  return translate(entries, nullptr, msgid);
 }
 
 std::string
-Dictionary::translate(const Entries& dict, const std::string& msgid) const
+Dictionary::translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
   if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
@@ -131,8 +146,10 @@ Dictionary::translate(const Entries& dict, const std::string& msgid) const
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
 
-    if (m_has_fallback) return m_fallback->translate(msgid);
-    else return msgid;
+    if (m_has_fallback)
+      return msgctxt ? m_fallback->translate_ctxt(*msgctxt, msgid) : m_fallback->translate(msgid);
+    else
+      return msgid;
   }
 }
 
@@ -142,12 +159,11 @@ Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid)
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate(i->second, msgid);
+    return translate(i->second, &msgctxt, msgid);
   }
   else
   {
-    log_info << "Couldn't translate: " << msgid << std::endl;
-    return msgid;
+    return translate(Entries(), &msgctxt, msgid);
   }
 }
 
@@ -158,15 +174,12 @@ Dictionary::translate_ctxt_plural(const std::string& msgctxt,
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate_plural(i->second, msgid, msgidplural, num);
+    return translate_plural(i->second, &msgctxt, msgid, msgidplural, num);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-    if (num != 1) // default to english
-      return msgidplural;
-    else
-      return msgid;
+    return fallback_plural(&msgctxt, msgid, msgidplural, num);
   }
 }
 
-- 
2.43.0


From 7ed62735e50d4274cc90fc549681eacaed6e2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 12/25] fix: IConv kept an invalid descriptor after an
 unsupported charset

Converting or closing it is an error (abort in convert()).
---
 src/iconv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index ba110d7..b23fd3a 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -74,6 +74,8 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
     cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
     if (cd == reinterpret_cast<iconv_t>(-1))
     {
+      cd = nullptr;
+
       if(errno == EINVAL)
       {
         std::ostringstream str;
-- 
2.43.0


From 488cdf47bf586657aaa9e53079b5f51707e1f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 13/25] fix: charset conversion depended on earlier texts and
 aborted on expansion

The shift state (and the byte order mark) leaked from one text into the
next, was never closed at the end of a text, and a text growing to more than
four times its size (ASCII to UTF-32 with byte order mark, Latin-1 to UTF-7)
ran into an assertion.
---
 src/iconv.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index b23fd3a..6b5bb55 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -104,7 +104,7 @@ IConv::convert(const std::string& text)
   else
   {
     size_t inbytesleft  = text.size();
-    size_t outbytesleft = 4*inbytesleft; // Worst case scenario: ASCII -> UTF-32?
+    size_t outbytesleft = 4*inbytesleft + 16; // ASCII -> UTF-32 with byte order mark
 
     // We try to avoid to much copying around, so we write directly into
     // a std::string
@@ -112,32 +112,48 @@ IConv::convert(const std::string& text)
     std::string result(outbytesleft, 'X');
     char* outbuf = &result[0];
 
-    // Try to convert the text.
-    size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    if (ret == static_cast<size_t>(-1))
+    // Start in the initial state, so that the result doesn't depend on
+    // what was converted before
+    tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
+
+    // Try to convert the text, at its end return to the initial state
+    for(bool done = text.empty(), flush = false; !done;)
     {
-      if (errno == EILSEQ || errno == EINVAL)
+      size_t ret = flush ?
+        tinygettext::iconv(cd, nullptr, nullptr, &outbuf, &outbytesleft) :
+        tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      if (ret != static_cast<size_t>(-1))
+      {
+        done  = flush;
+        flush = true;
+      }
+      else if (errno == EILSEQ || errno == EINVAL)
       { // invalid multibyte sequence
-        tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
-
         // FIXME: Could try to skip the invalid byte and continue
         log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
+        done  = flush;
+        flush = true;
       }
       else if (errno == E2BIG)
       { // output buffer to small
-        assert(false && "tinygettext/iconv.cpp: E2BIG: This should never be reached");
+        size_t used = result.size() - outbytesleft;
+        result.resize(2 * result.size());
+        outbuf       = &result[used];
+        outbytesleft = result.size() - used;
       }
       else if (errno == EBADF)
       {
         assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
+        done = true;
       }
       else
       {
         assert(false && "tinygettext/iconv.cpp: <unknown>: This should never be reached");
+        done = true;
       }
     }
 
-    result.resize(4*text.size() - outbytesleft);
+    result.resize(result.size() - outbytesleft);
 
     return result;
   }
-- 
2.43.0


From 263af453f03a92b6fcf5620d0c8202b2fccabcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 14/25] fix: an underscore in the codeset or modifier was taken
 for the country

Language::from_env("zh.x_TW") gave zh_TW.
---
 src/language.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language.cpp b/src/language.cpp
index e672915..455e3ba 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -440,7 +440,7 @@ Language::from_env(const std::string& env)
 
   language = env.substr(0, std::min(std::min(ln, dt), at));
 
-  if (ln != std::string::npos && ln+1 < env.size()) // _
+  if (ln < std::min(dt, at) && ln+1 < env.size()) // _
   {
     country = env.substr(ln+1, (std::min(dt, at) == std::string::npos) ? std::string::npos : std::min(dt, at) - (ln+1));
   }
-- 
2.43.0


From 61dbe0a3b438c6a8cc4ae68d288c2e44cabe5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 15/25] fix: wrong Plural-Forms entries for Latvian and
 Slovenian

The Latvian one had an unbalanced parenthesis, so that no header matched it,
and two instead of three forms; the Slovenian rule has four forms, not three.
---
 src/plural_forms.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index ec3b6a6..753ab03 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -76,13 +76,14 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=2;plural=(n>1);"] = PluralForms(2, plural2_2);
     plural_forms["Plural-Forms:nplurals=2;plural=n==1||n%10==1?0:1;"] = PluralForms(2, plural2_mk);
     plural_forms["Plural-Forms:nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;"] = PluralForms(2, plural2_mk_2);
-    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(2, plural3_lv);
+    plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(3, plural3_lv);
+    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2;"] = PluralForms(3, plural3_lv);
     plural_forms["Plural-Forms:nplurals=3;plural=n==1?0:n==2?1:2;"] = PluralForms(3, plural3_ga);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_lt);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1)?0:(n>=2&&n<=4)?1:2;"] = PluralForms(3, plural3_sk);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_pl);
-    plural_forms["Plural-Forms:nplurals=3;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);"] = PluralForms(3, plural3_sl);
+    plural_forms["Plural-Forms:nplurals=4;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);"] = PluralForms(4, plural3_sl);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));"] = PluralForms(3, plural3_ro);
     plural_forms["Plural-Forms:nplurals=4;plural=(n%1==0&&n==1?0:n%1==0&&n>=2&&n<=4?1:n%1!=0?2:3);"] = PluralForms(4, plural4_sk);
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n>=2&&n<=4&&n%1==0)?1:(n%1!=0)?2:3;"] = PluralForms(4, plural4_cs);
-- 
2.43.0


From 68b41b7883728a00d39f5ecb2134d8e96c33a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 16/25] fix: an empty msgid in a context was taken for the
 header

It reset the charset of the remaining file.
---
 src/po_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 41e6589..bce84e7 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -454,7 +454,7 @@ POParser::parse()
         {
           std::string msgstr = get_string(6);
 
-          if (msgid.empty())
+          if (msgid.empty() && !has_msgctxt)
           {
             parse_header(msgstr);
           }
-- 
2.43.0


From aafd4ca155c2593b55573fc8d107f77b684e09bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 17/25] fix: lookup tables were built unsynchronised on first
 use

Two threads making their first language, alias or plural form lookup at the
same time could corrupt the table or see it half-filled (unknown language).
---
 src/language.cpp     | 29 ++++++++++++++++-------------
 src/plural_forms.cpp | 14 ++++++++------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index 455e3ba..f2fea35 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -297,9 +297,10 @@ std::string
 resolve_language_alias(const std::string& name)
 {
   typedef std::unordered_map<std::string, std::string> Aliases;
-  static Aliases language_aliases;
-  if (language_aliases.empty())
+  static const Aliases aliases = []
   {
+    Aliases language_aliases;
+
     // FIXME: Many of those are not useful for us, since we leave
     // encoding to the app, not to the language, we could/should
     // also match against all language names, not just aliases from
@@ -353,15 +354,17 @@ resolve_language_alias(const std::string& name)
     language_aliases["swedish"]          = "sv_SE.ISO-8859-1";
     language_aliases["thai"]             = "th_TH.TIS-620";
     language_aliases["turkish"]          = "tr_TR.ISO-8859-9";
-  }
+
+    return language_aliases;
+  }();
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
     name_lowercase[i] = static_cast<char>(tolower(name[i]));
 
-  Aliases::iterator i = language_aliases.find(name_lowercase);
-  if (i != language_aliases.end())
+  Aliases::const_iterator i = aliases.find(name_lowercase);
+  if (i != aliases.end())
   {
     return i->second;
   }
@@ -377,18 +380,18 @@ Language
 Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
 {
   typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
-  static LanguageSpecMap language_map;
-
-  if (language_map.empty())
+  static const LanguageSpecMap language_map = []
   { // Init language_map
+    LanguageSpecMap map;
     for(int i = 0; languages[i].language != nullptr; ++i)
-      language_map[languages[i].language].push_back(&languages[i]);
-  }
+      map[languages[i].language].push_back(&languages[i]);
+    return map;
+  }();
 
-  LanguageSpecMap::iterator i = language_map.find(language);
+  LanguageSpecMap::const_iterator i = language_map.find(language);
   if (i != language_map.end())
   {
-    std::vector<const LanguageSpec*>& lst = i->second;
+    const std::vector<const LanguageSpec*>& lst = i->second;
 
     LanguageSpec tmpspec;
     tmpspec.language = language.c_str();
@@ -398,7 +401,7 @@ Language::from_spec(const std::string& language, const std::string& country, con
 
     const LanguageSpec* best_match = nullptr;
     int best_match_score = 0;
-    for(std::vector<const LanguageSpec*>::iterator j = lst.begin(); j != lst.end(); ++j)
+    for(std::vector<const LanguageSpec*>::const_iterator j = lst.begin(); j != lst.end(); ++j)
     { // Search for the language that best matches the given spec, value country more then modifier
       int score = Language::match(Language(*j), tmplang);
 
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 753ab03..caa6a9a 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -65,10 +65,10 @@ PluralForms
 PluralForms::from_string(const std::string& str)
 {
   typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
-  static PluralFormsMap plural_forms;
-
-  if (plural_forms.empty())
+  static const PluralFormsMap known_forms = []
   {
+    PluralFormsMap plural_forms;
+
     // Note that the plural forms here shouldn't contain any spaces
     plural_forms["Plural-Forms:nplurals=1;plural=0;"] = PluralForms(1, plural1);
     plural_forms["Plural-Forms:nplurals=2;plural=(n!=1);"] = PluralForms(2, plural2_1);
@@ -96,7 +96,9 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;"] = PluralForms(4, plural4_he);
     plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)"] = PluralForms(5, plural5_ga);
     plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"]=PluralForms(6, plural6_ar);
-  }
+
+    return plural_forms;
+  }();
 
   // Remove spaces from string before lookup
   std::string space_less_str;
@@ -104,8 +106,8 @@ PluralForms::from_string(const std::string& str)
     if (!isspace(str[i]))
       space_less_str += str[i];
 
-  PluralFormsMap::const_iterator it= plural_forms.find(space_less_str);
-  if (it != plural_forms.end())
+  PluralFormsMap::const_iterator it= known_forms.find(space_less_str);
+  if (it != known_forms.end())
   {
     return it->second;
   }
-- 
2.43.0


From 71179dace45089b6bc98f883d5c3761ca4de46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 18/25] fix: UTF-16 byte order leaked from one converted text
 into the next

Resetting a descriptor doesn't make glibc forget the byte order it found
in an earlier text, so a text without byte order mark was swapped.
---
 src/iconv.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 6b5bb55..73de475 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -112,9 +112,19 @@ IConv::convert(const std::string& text)
     std::string result(outbytesleft, 'X');
     char* outbuf = &result[0];
 
-    // Start in the initial state, so that the result doesn't depend on
-    // what was converted before
-    tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
+    // Start with a fresh descriptor, so that the result doesn't depend on
+    // what was converted before; a reset doesn't make glibc forget the
+    // byte order of earlier UTF-16 text
+    iconv_t fresh = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
+    if (fresh != reinterpret_cast<iconv_t>(-1))
+    {
+      tinygettext::iconv_close(cd);
+      cd = fresh;
+    }
+    else
+    {
+      tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
+    }
 
     // Try to convert the text, at its end return to the initial state
     for(bool done = text.empty(), flush = false; !done;)
-- 
2.43.0


From 4a8808818dd2ad5ffc6956649eeb3b767da383c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 19/25] fix: charset names in lower case were not recognised
 under some locales

---
 src/iconv.cpp     | 5 +++--
 src/po_parser.cpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 73de475..0476d0c 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -19,6 +19,7 @@
 
 #include <ctype.h>
 #include <assert.h>
+#include <locale>
 #include <sstream>
 #include <errno.h>
 #include <stdexcept>
@@ -60,10 +61,10 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
   to_charset   = to_charset_;
 
   for(std::string::iterator i = to_charset.begin(); i != to_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = std::toupper(*i, std::locale::classic());
 
   for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = std::toupper(*i, std::locale::classic());
 
   if (to_charset == from_charset)
   {
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index bce84e7..6c53828 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -20,6 +20,7 @@
 #include "tinygettext/po_parser.hpp"
 
 #include <iostream>
+#include <locale>
 #include <ctype.h>
 #include <string>
 #include <istream>
@@ -257,7 +258,7 @@ POParser::parse_header(const std::string& header)
           from_charset = line.substr(len);
 
           for(std::string::iterator ch = from_charset.begin(); ch != from_charset.end(); ++ch)
-            *ch = static_cast<char>(toupper(*ch));
+            *ch = std::toupper(*ch, std::locale::classic());
         }
         else
         {
-- 
2.43.0


From 09b5845b4019923b9dcdd5adfad0c4de6959094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 20/25] fix: language names were not recognised under some
 locales

---
 src/language.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/language.cpp b/src/language.cpp
index f2fea35..afba4ad 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -23,6 +23,7 @@
 #include <unordered_map>
 #include <vector>
 #include <algorithm>
+#include <locale>
 
 namespace tinygettext {
 
@@ -361,7 +362,7 @@ resolve_language_alias(const std::string& name)
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
-    name_lowercase[i] = static_cast<char>(tolower(name[i]));
+    name_lowercase[i] = std::tolower(name[i], std::locale::classic());
 
   Aliases::const_iterator i = aliases.find(name_lowercase);
   if (i != aliases.end())
-- 
2.43.0


From f7c527bcf92dcffae071c713021776162129a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 21/25] fix: line numbers in messages were formatted by the
 global locale

---
 src/log.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log.cpp b/src/log.cpp
index 531deb1..944e6d3 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -54,6 +54,7 @@ Log::Log(log_callback_t callback_) :
   callback(callback_),
   out()
 {
+  out.imbue(std::locale::classic()); // no grouping of the digits of line numbers
 }
 
 Log::~Log()
-- 
2.43.0


From 90274cd6d33692a78e938f02a204cd76efa92985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 22/25] fix: country codes in file names depended on the locale

---
 src/dictionary_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index f135a89..5d10a5e 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -25,6 +25,7 @@
 #include <string.h>
 #include <fstream>
 #include <algorithm>
+#include <locale>
 
 #include "tinygettext/file_system.hpp"
 #include "tinygettext/log_stream.hpp"
@@ -290,9 +291,9 @@ std::string DictionaryManager::convertFilename2Language(const std::string &s_in)
             // we are done (en_GB.UTF-8) - only convert
             // the 'gb' part ... if we ever get this kind
             // of filename.
-            if(!::isalpha(s[i]))
+            if(!std::isalpha(s[i], std::locale::classic()))
                 break;
-            s[i] = static_cast<char>(::toupper(s[i]));
+            s[i] = std::toupper(s[i], std::locale::classic());
         }
         else
             underscore_found = s[i]=='_';
-- 
2.43.0


From d3dce5ac93078473d7655a1bfdb62e6b6fe2ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 23/25] fix: asking for a dictionary from a log callback while
 it is loading recursed

---
 src/dictionary_manager.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 5d10a5e..fbca1e1 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -115,7 +115,30 @@ DictionaryManager::get_dictionary(const Language& language)
   else // Dictionary for languages lang isn't loaded, so we load it
   {
     //log_debug << "get_dictionary: " << lang << std::endl;
-    std::unique_ptr<Dictionary> dict(new Dictionary(charset));
+    Dictionary* dict = new Dictionary(charset);
+
+    // The FileSystem might throw an exception, only keep the dictionary
+    // when it is completely loaded. It is known before, so that a log
+    // callback can ask for the dictionary that is being loaded
+    struct Guard
+    {
+      DictionaryManager& manager;
+      const Language lang;
+      Dictionary* partial;
+
+      ~Guard()
+      {
+        if (partial)
+        {
+          if (manager.current_dict == partial)
+            manager.current_dict = nullptr;
+          manager.dictionaries.erase(lang);
+          delete partial;
+        }
+      }
+    } guard = { *this, language, dict };
+
+    dictionaries[language] = dict;
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
@@ -180,9 +203,8 @@ DictionaryManager::get_dictionary(const Language& language)
         dict->addFallback( &get_dictionary(Language::from_spec(language.get_language())) );
     }
 
-    // Only keep the dictionary once it is completely loaded, the
-    // FileSystem might have thrown an exception
-    return *(dictionaries[language] = dict.release());
+    guard.partial = nullptr;
+    return *dict;
   }
 }
 
-- 
2.43.0


From 97fb7607363ad7669fecf483c330beb6df0dc3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 24/25] fix: a language chosen by a callback while a dictionary
 is loaded mixed up the dictionaries

---
 src/dictionary_manager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index fbca1e1..66def1c 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -90,8 +90,12 @@ DictionaryManager::get_dictionary()
   {
     if (current_language)
     {
-      current_dict = &get_dictionary(current_language);
-      return *current_dict;
+      // A callback made while loading might choose another language
+      const Language language = current_language;
+      Dictionary& dict = get_dictionary(language);
+      if (current_language == language)
+        current_dict = &dict;
+      return dict;
     }
     else
     {
-- 
2.43.0


From 11d71c51ed843b58e46c496a69bbe2fac9084c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:32 +0000
Subject: [PATCH 25/25] fix: dictionaries loaded by a callback kept falling
 back to one whose loading failed

---
 include/tinygettext/dictionary.hpp |  3 +++
 src/dictionary_manager.cpp         | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/tinygettext/dictionary.hpp b/include/tinygettext/dictionary.hpp
index 3c732c5..c5b2fe2 100644
--- a/include/tinygettext/dictionary.hpp
+++ b/include/tinygettext/dictionary.hpp
@@ -115,6 +115,9 @@ public:
       m_fallback = fallback;
   }
 
+  /** Return the dictionary set by addFallback(), nullptr if there is none */
+  const Dictionary* get_fallback() const { return m_fallback; }
+
   /** Iterate over all messages with a context, Func is of type:
       void func(const std::string& ctxt, const std::string& msgid, const std::vector<std::string>& msgstrs) */
   template<class Func>
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 66def1c..6353e29 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -134,9 +134,24 @@ DictionaryManager::get_dictionary(const Language& language)
       {
         if (partial)
         {
+          manager.dictionaries.erase(lang);
+          // A log callback might have loaded dictionaries that fall back to it
+          for (Dictionaries::iterator d = manager.dictionaries.begin(); d != manager.dictionaries.end();)
+          {
+            if (d->second->get_fallback() == partial)
+            {
+              if (manager.current_dict == d->second)
+                manager.current_dict = nullptr;
+              delete d->second;
+              d = manager.dictionaries.erase(d);
+            }
+            else
+            {
+              ++d;
+            }
+          }
           if (manager.current_dict == partial)
             manager.current_dict = nullptr;
-          manager.dictionaries.erase(lang);
           delete partial;
         }
       }
-- 
2.43.0

