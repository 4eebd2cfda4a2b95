From a2ffaf39cd9197f5680a7daaf565c745c581c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/17] fix: POParser: don't loop forever on a file that lacks
 a final newline

At the end of the stream next_line() left the previous line in
current_line, so a last line that was a comment, a string continuation
or a msgstr[N] was parsed over and over again.
---
 src/po_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ff56796..22992c0 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -89,7 +89,12 @@ POParser::next_line()
 {
   line_number += 1;
   if (!std::getline(in, current_line))
+  {
+    // getline() leaves the string untouched when the stream already was at
+    // its end, so don't let the caller see the last line a second time
+    current_line.clear();
     eof = true;
+  }
 }
 
 void
-- 
2.43.0


From e527de02f514b3b8f0a280858ff8f24217479d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 02/17] fix: convertFilename2Language: accept names shorter
 than three characters

size()-3 wrapped around and substr() threw std::out_of_range.
---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6175d76..e83e7c6 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -271,7 +271,7 @@ DictionaryManager::remove_directory(const std::string& pathname)
 std::string DictionaryManager::convertFilename2Language(const std::string &s_in) const
 {
     std::string s;
-    if(s_in.substr(s_in.size()-3, 3)==".po")
+    if(has_suffix(s_in, ".po"))
         s = s_in.substr(0, s_in.size()-3);
     else
         s = s_in;
-- 
2.43.0


From 71ccbd81745fdfe31e98ab41d41538e385e8d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 03/17] fix: get_languages(): list exactly the languages
 get_dictionary() can load

Filenames with an unknown language put an undefined Language into the
set, and filenames with a lower case country listed another language
than the one that get_dictionary() sees in them.
---
 src/dictionary_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index e83e7c6..a92b63b 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -195,7 +195,11 @@ DictionaryManager::get_languages()
     {
       if (has_suffix(*file, ".po"))
       {
-        languages.insert(Language::from_env(file->substr(0, file->size()-3)));
+        // same mapping as in get_dictionary(), so that only languages that
+        // can actually be loaded get listed
+        Language language = Language::from_env(convertFilename2Language(*file));
+        if (language)
+          languages.insert(language);
       }
     }
   }
-- 
2.43.0


From ccf6f636492bede88cd9b84ab85d102c1ee90823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 04/17] fix: DictionaryManager: make set_use_fuzzy() have an
 effect

The setting was stored, but never handed to the parser.
---
 include/tinygettext/po_parser.hpp | 5 +++--
 src/dictionary_manager.cpp        | 2 +-
 src/po_parser.cpp                 | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 99c03aa..da57cf6 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -65,8 +65,9 @@ private:
 public:
   /** @param filename name of the istream, only used in error messages
       @param in stream from which the PO file is read.
-      @param dict dictionary to which the strings are written */
-  static void parse(const std::string& filename, std::istream& in, Dictionary& dict);
+      @param dict dictionary to which the strings are written
+      @param use_fuzzy if false, entries marked as fuzzy are ignored */
+  static void parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy = true);
   static bool pedantic;
 
 private:
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index a92b63b..8d78524 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -162,7 +162,7 @@ DictionaryManager::get_dictionary(const Language& language)
           }
           else
           {
-            POParser::parse(pofile, *in, *dict);
+            POParser::parse(pofile, *in, *dict, use_fuzzy);
           }
         }
         catch(std::exception& e)
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 22992c0..2340b13 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -38,9 +38,9 @@ namespace tinygettext {
 bool POParser::pedantic = true;
 
 void
-POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict)
+POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy)
 {
-  POParser parser(filename, in, dict);
+  POParser parser(filename, in, dict, use_fuzzy);
   parser.parse();
 }
 
-- 
2.43.0


From a77c9605b870299f5afbdf84988163e03da059eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 05/17] fix: PluralForms: correct the Latvian and Slovenian
 entries

Latvian has three forms, not two, and the key lacked its opening
parenthesis, so that no well-formed header matched it. The Slovenian
formula yields 0..3, which are four forms; with nplurals=3 the last one
could never be stored.
---
 src/plural_forms.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index ec3b6a6..82b6d3e 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -46,7 +46,7 @@ unsigned int plural3_1(int n)  { return static_cast<unsigned int>(n%10==1 && n%1
 unsigned int plural3_sk(int n) { return static_cast<unsigned int>( (n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2 ); }
 unsigned int plural3_pl(int n) { return static_cast<unsigned int>(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2); }
 unsigned int plural3_ro(int n) { return static_cast<unsigned int>(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));}
-unsigned int plural3_sl(int n) { return static_cast<unsigned int>(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3); }
+unsigned int plural4_sl(int n) { return static_cast<unsigned int>(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3); }
 unsigned int plural4_be(int n) { return static_cast<unsigned int>(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : n%10==0 || (n%10>=5 && n%10<=9) || (n%100>=11 && n%100<=14)? 2 : 3);}
 unsigned int plural4_cs(int n) { return static_cast<unsigned int>((n == 1 && n % 1 == 0) ? 0 : (n >= 2 && n <= 4 && n % 1 == 0) ? 1: (n % 1 != 0 ) ? 2 : 3);}
 unsigned int plural4_cy(int n) { return static_cast<unsigned int>((n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3);}
@@ -76,13 +76,13 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=2;plural=(n>1);"] = PluralForms(2, plural2_2);
     plural_forms["Plural-Forms:nplurals=2;plural=n==1||n%10==1?0:1;"] = PluralForms(2, plural2_mk);
     plural_forms["Plural-Forms:nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;"] = PluralForms(2, plural2_mk_2);
-    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(2, plural3_lv);
+    plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(3, plural3_lv);
     plural_forms["Plural-Forms:nplurals=3;plural=n==1?0:n==2?1:2;"] = PluralForms(3, plural3_ga);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_lt);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1)?0:(n>=2&&n<=4)?1:2;"] = PluralForms(3, plural3_sk);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_pl);
-    plural_forms["Plural-Forms:nplurals=3;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);"] = PluralForms(3, plural3_sl);
+    plural_forms["Plural-Forms:nplurals=4;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);"] = PluralForms(4, plural4_sl);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));"] = PluralForms(3, plural3_ro);
     plural_forms["Plural-Forms:nplurals=4;plural=(n%1==0&&n==1?0:n%1==0&&n>=2&&n<=4?1:n%1!=0?2:3);"] = PluralForms(4, plural4_sk);
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n>=2&&n<=4&&n%1==0)?1:(n%1!=0)?2:3;"] = PluralForms(4, plural4_cs);
-- 
2.43.0


From 4bd38ba4948d1933c22b1b9ff28d0b4fcbce5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 06/17] fix: IConv: don't keep an invalid descriptor when
 iconv_open() fails

It was handed to iconv() by a later convert() and to iconv_close() by
the destructor.
---
 src/iconv.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index ba110d7..736559d 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -54,7 +54,10 @@ void
 IConv::set_charsets(const std::string& from_charset_, const std::string& to_charset_)
 {
   if (cd)
+  {
     tinygettext::iconv_close(cd);
+    cd = nullptr;
+  }
 
   from_charset = from_charset_;
   to_charset   = to_charset_;
@@ -74,6 +77,8 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
     cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
     if (cd == reinterpret_cast<iconv_t>(-1))
     {
+      cd = nullptr; // there is no descriptor to use or to close
+
       if(errno == EINVAL)
       {
         std::ostringstream str;
-- 
2.43.0


From f778738bbbd63b56bdf947f759cc8831237e2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 07/17] fix: IConv::convert(): don't abort or mix up state with
 UTF-32, UTF-7, ISO-2022-*

Four output bytes per input byte are not enough for charsets that start
with a byte order mark or use shift sequences, convert() ran into an
assert() then. The conversion state also leaked from one text into the
next one and the final shift sequence was never written.
---
 src/iconv.cpp | 59 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 736559d..3286a04 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -106,41 +106,60 @@ IConv::convert(const std::string& text)
   }
   else
   {
-    size_t inbytesleft  = text.size();
-    size_t outbytesleft = 4*inbytesleft; // Worst case scenario: ASCII -> UTF-32?
+    const char* inbuf  = text.data();
+    size_t inbytesleft = text.size();
 
     // We try to avoid to much copying around, so we write directly into
-    // a std::string
-    const char* inbuf = &text[0];
-    std::string result(outbytesleft, 'X');
-    char* outbuf = &result[0];
-
-    // Try to convert the text.
-    size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    if (ret == static_cast<size_t>(-1))
+    // a std::string, it gets enlarged below when it turns out too small
+    std::string result(4*inbytesleft + 16, 'X');
+    size_t written = 0;
+
+    // Every text starts in the initial state, whatever came before it
+    tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
+
+    // Convert the text, then write what is needed to get back to the
+    // initial state (a no-op for most charsets)
+    bool flush = false;
+    for(;;)
     {
-      if (errno == EILSEQ || errno == EINVAL)
-      { // invalid multibyte sequence
-        tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
+      char* outbuf = &result[written];
+      size_t outbytesleft = result.size() - written;
 
-        // FIXME: Could try to skip the invalid byte and continue
-        log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
+      size_t ret = flush ?
+        tinygettext::iconv(cd, nullptr, nullptr, &outbuf, &outbytesleft) :
+        tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+
+      written = result.size() - outbytesleft;
+
+      if (ret != static_cast<size_t>(-1))
+      {
+        if (flush)
+          break;
+
+        flush = true;
       }
       else if (errno == E2BIG)
       { // output buffer to small
-        assert(false && "tinygettext/iconv.cpp: E2BIG: This should never be reached");
+        result.resize(2*result.size());
       }
-      else if (errno == EBADF)
-      {
-        assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
+      else if (errno == EILSEQ || errno == EINVAL)
+      { // invalid multibyte sequence
+        // FIXME: Could try to skip the invalid byte and continue
+        log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
+
+        if (flush)
+          break;
+
+        flush = true;
       }
       else
       {
         assert(false && "tinygettext/iconv.cpp: <unknown>: This should never be reached");
+        break;
       }
     }
 
-    result.resize(4*text.size() - outbytesleft);
+    result.resize(written);
 
     return result;
   }
-- 
2.43.0


From 708975de69533f77ba3579096cdf0bdcc29ff939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 08/17] fix: DictionaryManager: survive an unreadable search
 path directory

UnixFileSystem::open_directory() throws since it uses std::filesystem.
get_dictionary() passed that on, but had already cached the dictionary,
so that the next call returned it without anything being loaded.
---
 src/dictionary_manager.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 8d78524..6319fc2 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -41,6 +41,22 @@ static bool has_suffix(const std::string& lhs, const std::string& rhs)
     return lhs.compare(lhs.length() - rhs.length(), rhs.length(), rhs) == 0;
 }
 
+/** A directory that can't be read is reported and otherwise treated
+    like an empty one, so that it doesn't affect the others */
+static std::vector<std::string> list_directory(FileSystem& filesystem, const std::string& pathname)
+{
+  try
+  {
+    return filesystem.open_directory(pathname);
+  }
+  catch(std::exception& e)
+  {
+    log_error << "error: failure reading directory: " << pathname << std::endl;
+    log_error << e.what() << "" << std::endl;
+    return std::vector<std::string>();
+  }
+}
+
 DictionaryManager::DictionaryManager(const std::string& charset_) :
   DictionaryManager(std::unique_ptr<FileSystem>(new UnixFileSystem), charset_)
 {
@@ -120,7 +136,7 @@ DictionaryManager::get_dictionary(const Language& language)
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
-      std::vector<std::string> files = filesystem->open_directory(*p);
+      std::vector<std::string> files = list_directory(*filesystem, *p);
 
       std::string best_filename;
       int best_score = 0;
@@ -189,7 +205,7 @@ DictionaryManager::get_languages()
 
   for (SearchPath::iterator p = search_path.begin(); p != search_path.end(); ++p)
   {
-    std::vector<std::string> files = filesystem->open_directory(*p);
+    std::vector<std::string> files = list_directory(*filesystem, *p);
 
     for(std::vector<std::string>::iterator file = files.begin(); file != files.end(); ++file)
     {
-- 
2.43.0


From 97f50cae0f734e75842b638f490cb8efd86650df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 09/17] fix: DictionaryManager: report .po files that can't be
 opened

UnixFileSystem::open_file() always returns a stream, a failure to open
the file shows in the state of that stream only.
---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6319fc2..a67fa12 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -172,7 +172,7 @@ DictionaryManager::get_dictionary(const Language& language)
         try
         {
           std::unique_ptr<std::istream> in = filesystem->open_file(pofile);
-          if (!in)
+          if (!in || !*in)
           {
             log_error << "error: failure opening: " << pofile << std::endl;
           }
-- 
2.43.0


From 719a4fe34e859d35e495388c0ebebea3470f522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 10/17] fix: translate_plural(): return the plural when the
 needed form is missing

It returned the singular msgid for every count, unlike in the other
cases that lack a translation.
---
 src/dictionary.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index b61d215..c96365d 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -89,16 +89,16 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     {
       log_error << "Plural translation not available (and not set to empty): '" << msgid << "'" << std::endl;
       log_error << "Missing plural form: " << n << std::endl;
-      return msgid;
     }
-
-    if (!msgstrs[n].empty())
+    else if (!msgstrs[n].empty())
+    {
       return msgstrs[n];
+    }
+
+    if (count == 1) // default to english rules
+      return msgid;
     else
-      if (count == 1) // default to english rules
-        return msgid;
-      else
-        return msgid_plural;
+      return msgid_plural;
   }
   else
   {
-- 
2.43.0


From 7d34fd3e23d7c6216dd7601230e0fb6079fecafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 11/17] fix: translate(): never translate a message to nothing

A plural entry of which only the later forms are translated has an empty
first form, translate() returned that instead of the msgid.
---
 src/dictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index c96365d..8898968 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -124,7 +124,7 @@ std::string
 Dictionary::translate(const Entries& dict, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
-  if (i != dict.end() && !i->second.empty())
+  if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
   {
     return i->second[0];
   }
-- 
2.43.0


From b6eb726241f8d231539dc4846f0901d8b9a0ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 12/17] fix: Dictionary: use the fallback for plurals and
 contexts, too

With de_AT set, messages that only de.po translates were looked up there
by translate() alone; plural messages and messages with a context stayed
untranslated, or, if the context exists in both, lost their context.
---
 include/tinygettext/dictionary.hpp | 11 +++++-
 src/dictionary.cpp                 | 62 ++++++++++++++++++++----------
 2 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/include/tinygettext/dictionary.hpp b/include/tinygettext/dictionary.hpp
index 958f4a3..41a4230 100644
--- a/include/tinygettext/dictionary.hpp
+++ b/include/tinygettext/dictionary.hpp
@@ -43,8 +43,15 @@ private:
   std::string charset;
   PluralForms plural_forms;
 
-  std::string translate(const Entries& dict, const std::string& msgid) const;
-  std::string translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgidplural, int num) const;
+  // msgctxt is the context that dict belongs to, nullptr for messages without one
+  std::string translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const;
+  std::string translate_plural(const Entries& dict, const std::string* msgctxt,
+                               const std::string& msgid, const std::string& msgidplural, int num) const;
+
+  // Used when this dictionary has no translation: ask the fallback dictionary, if there is any
+  std::string untranslated(const std::string* msgctxt, const std::string& msgid) const;
+  std::string untranslated_plural(const std::string* msgctxt,
+                                  const std::string& msgid, const std::string& msgidplural, int num) const;
 
   bool m_has_fallback;
   Dictionary* m_fallback;
diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index 8898968..b4132d3 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -74,11 +74,12 @@ Dictionary::get_plural_forms() const
 std::string
 Dictionary::translate_plural(const std::string& msgid, const std::string& msgid_plural, int num) const
 {
-  return translate_plural(entries, msgid, msgid_plural, num);
+  return translate_plural(entries, nullptr, msgid, msgid_plural, num);
 }
 
 std::string
-Dictionary::translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgid_plural, int count) const
+Dictionary::translate_plural(const Entries& dict, const std::string* msgctxt,
+                             const std::string& msgid, const std::string& msgid_plural, int count) const
 {
   Entries::const_iterator it = dict.find(msgid);
   if (it != dict.end())
@@ -94,11 +95,6 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     {
       return msgstrs[n];
     }
-
-    if (count == 1) // default to english rules
-      return msgid;
-    else
-      return msgid_plural;
   }
   else
   {
@@ -106,22 +102,36 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     log_info << "Candidates: " << std::endl;
     for (it = dict.begin(); it != dict.end(); ++it)
       log_info << "'" << it->first << "'" << std::endl;
+  }
 
-    if (count == 1) // default to english rules
-      return msgid;
+  return untranslated_plural(msgctxt, msgid, msgid_plural, count);
+}
+
+std::string
+Dictionary::untranslated_plural(const std::string* msgctxt,
+                                const std::string& msgid, const std::string& msgid_plural, int count) const
+{
+  if (m_has_fallback)
+  {
+    if (msgctxt)
+      return m_fallback->translate_ctxt_plural(*msgctxt, msgid, msgid_plural, count);
     else
-      return msgid_plural;
+      return m_fallback->translate_plural(msgid, msgid_plural, count);
   }
+  else if (count == 1) // default to english rules
+    return msgid;
+  else
+    return msgid_plural;
 }
 
 std::string
 Dictionary::translate(const std::string& msgid) const
 {
-  return translate(entries, msgid);
+  return translate(entries, nullptr, msgid);
 }
 
 std::string
-Dictionary::translate(const Entries& dict, const std::string& msgid) const
+Dictionary::translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
   if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
@@ -132,23 +142,36 @@ Dictionary::translate(const Entries& dict, const std::string& msgid) const
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
 
-    if (m_has_fallback) return m_fallback->translate(msgid);
-    else return msgid;
+    return untranslated(msgctxt, msgid);
   }
 }
 
+std::string
+Dictionary::untranslated(const std::string* msgctxt, const std::string& msgid) const
+{
+  if (m_has_fallback)
+  {
+    if (msgctxt)
+      return m_fallback->translate_ctxt(*msgctxt, msgid);
+    else
+      return m_fallback->translate(msgid);
+  }
+  else
+    return msgid;
+}
+
 std::string
 Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid) const
 {
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate(i->second, msgid);
+    return translate(i->second, &msgctxt, msgid);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-    return msgid;
+    return untranslated(&msgctxt, msgid);
   }
 }
 
@@ -159,15 +182,12 @@ Dictionary::translate_ctxt_plural(const std::string& msgctxt,
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate_plural(i->second, msgid, msgidplural, num);
+    return translate_plural(i->second, &msgctxt, msgid, msgidplural, num);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-    if (num != 1) // default to english
-      return msgidplural;
-    else
-      return msgid;
+    return untranslated_plural(&msgctxt, msgid, msgidplural, num);
   }
 }
 
-- 
2.43.0


From 1542adc1c953149070b6ef7ef2946dd629030ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 13/17] fix: initialize the static lookup tables in a
 thread-safe way

Separate dictionaries and languages being used by separate threads raced
on filling the tables behind Language::from_spec(), from_name() and
PluralForms::from_string().
---
 src/language.cpp     | 53 +++++++++++++++++++++++++++-----------------
 src/plural_forms.cpp | 22 +++++++++++-------
 2 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index e672915..9f179c9 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -293,13 +293,12 @@ static const LanguageSpec languages[] = {
 
 namespace {
 
-std::string
-resolve_language_alias(const std::string& name)
+typedef std::unordered_map<std::string, std::string> Aliases;
+
+Aliases create_language_aliases()
 {
-  typedef std::unordered_map<std::string, std::string> Aliases;
-  static Aliases language_aliases;
-  if (language_aliases.empty())
-  {
+    Aliases language_aliases;
+
     // FIXME: Many of those are not useful for us, since we leave
     // encoding to the app, not to the language, we could/should
     // also match against all language names, not just aliases from
@@ -353,14 +352,22 @@ resolve_language_alias(const std::string& name)
     language_aliases["swedish"]          = "sv_SE.ISO-8859-1";
     language_aliases["thai"]             = "th_TH.TIS-620";
     language_aliases["turkish"]          = "tr_TR.ISO-8859-9";
-  }
+
+    return language_aliases;
+}
+
+std::string
+resolve_language_alias(const std::string& name)
+{
+  // initialized once, even if multiple threads get here at the same time
+  static const Aliases language_aliases = create_language_aliases();
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
     name_lowercase[i] = static_cast<char>(tolower(name[i]));
 
-  Aliases::iterator i = language_aliases.find(name_lowercase);
+  Aliases::const_iterator i = language_aliases.find(name_lowercase);
   if (i != language_aliases.end())
   {
     return i->second;
@@ -371,24 +378,30 @@ resolve_language_alias(const std::string& name)
   }
 }
 
+typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
+
+LanguageSpecMap create_language_map()
+{
+  LanguageSpecMap language_map;
+
+  for(int i = 0; languages[i].language != nullptr; ++i)
+    language_map[languages[i].language].push_back(&languages[i]);
+
+  return language_map;
+}
+
 } // namespace
 
 Language
 Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
 {
-  typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
-  static LanguageSpecMap language_map;
-
-  if (language_map.empty())
-  { // Init language_map
-    for(int i = 0; languages[i].language != nullptr; ++i)
-      language_map[languages[i].language].push_back(&languages[i]);
-  }
+  // initialized once, even if multiple threads get here at the same time
+  static const LanguageSpecMap language_map = create_language_map();
 
-  LanguageSpecMap::iterator i = language_map.find(language);
+  LanguageSpecMap::const_iterator i = language_map.find(language);
   if (i != language_map.end())
   {
-    std::vector<const LanguageSpec*>& lst = i->second;
+    const std::vector<const LanguageSpec*>& lst = i->second;
 
     LanguageSpec tmpspec;
     tmpspec.language = language.c_str();
@@ -398,7 +411,7 @@ Language::from_spec(const std::string& language, const std::string& country, con
 
     const LanguageSpec* best_match = nullptr;
     int best_match_score = 0;
-    for(std::vector<const LanguageSpec*>::iterator j = lst.begin(); j != lst.end(); ++j)
+    for(std::vector<const LanguageSpec*>::const_iterator j = lst.begin(); j != lst.end(); ++j)
     { // Search for the language that best matches the given spec, value country more then modifier
       int score = Language::match(Language(*j), tmplang);
 
@@ -477,7 +490,7 @@ Language::match(const Language& lhs, const Language& rhs)
   }
   else
   {
-    static int match_tbl[3][3] = {
+    static const int match_tbl[3][3] = {
       // modifier match, wildchard, miss
       { 9, 8, 5 }, // country match
       { 7, 6, 3 }, // country wildcard
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 82b6d3e..baaab56 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -59,16 +59,12 @@ unsigned int plural4_uk(int n) { return static_cast<unsigned int>(n % 1 == 0 &&
 unsigned int plural5_ga(int n) { return static_cast<unsigned int>(n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4);}
 unsigned int plural6_ar(int n) { return static_cast<unsigned int>( n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5); }
 
-} // namespace
+typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
 
-PluralForms
-PluralForms::from_string(const std::string& str)
+PluralFormsMap create_plural_forms()
 {
-  typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
-  static PluralFormsMap plural_forms;
+    PluralFormsMap plural_forms;
 
-  if (plural_forms.empty())
-  {
     // Note that the plural forms here shouldn't contain any spaces
     plural_forms["Plural-Forms:nplurals=1;plural=0;"] = PluralForms(1, plural1);
     plural_forms["Plural-Forms:nplurals=2;plural=(n!=1);"] = PluralForms(2, plural2_1);
@@ -95,7 +91,17 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;"] = PluralForms(4, plural4_he);
     plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)"] = PluralForms(5, plural5_ga);
     plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"]=PluralForms(6, plural6_ar);
-  }
+
+    return plural_forms;
+}
+
+} // namespace
+
+PluralForms
+PluralForms::from_string(const std::string& str)
+{
+  // initialized once, even if multiple threads get here at the same time
+  static const PluralFormsMap plural_forms = create_plural_forms();
 
   // Remove spaces from string before lookup
   std::string space_less_str;
-- 
2.43.0


From 6f9a40e60e67b716327d453497c49effbbf4d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 14/17] fix: POParser: handle the escape sequence \f

It was the only single character escape of .po files that wasn't decoded.
---
 src/po_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 2340b13..cabdfae 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -135,6 +135,7 @@ POParser::get_string_line(std::ostringstream& out, size_t skip)
       {
         case 'a':  out << '\a'; break;
         case 'b':  out << '\b'; break;
+        case 'f':  out << '\f'; break;
         case 'v':  out << '\v'; break;
         case 'n':  out << '\n'; break;
         case 't':  out << '\t'; break;
-- 
2.43.0


From a6f4c49fb18d11bd366a84a7eee560450c02bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 15/17] fix: POParser: don't take an entry with a context for
 the header

Only the entry with an empty msgid and no msgctxt is the header. Parsing
another one as such switched the charset of the rest of the file.
---
 src/po_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index cabdfae..05f17f3 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -456,7 +456,7 @@ POParser::parse()
         {
           std::string msgstr = get_string(6);
 
-          if (msgid.empty())
+          if (msgid.empty() && !has_msgctxt)
           {
             parse_header(msgstr);
           }
-- 
2.43.0


From 014a3a4c87e1e0e867560c0897fbb32fe3a4b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 16/17] fix: Language::from_env: separators inside of codeset
 and modifier are not separators of the locale name

---
 src/language.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/language.cpp b/src/language.cpp
index 9f179c9..581a098 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -444,6 +444,12 @@ Language::from_env(const std::string& env)
   std::string::size_type dt = env.find('.');
   std::string::size_type at = env.find('@');
 
+  // separators inside of a modifier or codeset are part of it
+  if (dt != std::string::npos && dt > at)
+    dt = std::string::npos;
+  if (ln != std::string::npos && ln > std::min(dt, at))
+    ln = std::string::npos;
+
   std::string language;
   std::string country;
   std::string codeset;
-- 
2.43.0


From 24c32e0c11a545d067b4a79d7c3658e1edad8083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 17/17] fix: POParser: don't skip the entry behind an
 incomplete one

---
 src/po_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 05f17f3..723d3dc 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -76,10 +76,10 @@ POParser::error(const std::string& msg)
 {
   log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
 
-  // Try to recover from an error by searching for start of another entry
-  do
+  // Try to recover from an error by searching for start of another entry,
+  // the current line may already be the empty one in front of it
+  while(!eof && !is_empty_line())
     next_line();
-  while(!eof && !is_empty_line());
 
   throw POParserError();
 }
-- 
2.43.0

