"""Definitions of the planted bugs (see mkseeds.py)."""
SEEDS = []


def S(id, property, needs, what, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo, **k))


PRE = r'''
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include "tinygettext/tinygettext.hpp"
#include "tinygettext/dictionary.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/po_parser.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/log.hpp"
using namespace tinygettext;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\n", #c); bad = 1; } } while (0)
static int infos, warnings, errors;
static void on_info(const std::string&) { ++infos; }
static void on_warning(const std::string&) { ++warnings; }
static void on_error(const std::string&) { ++errors; }
static void quiet() { Log::set_log_info_callback(on_info); Log::set_log_warning_callback(on_warning); Log::set_log_error_callback(on_error); }
static PluralForms rule(const std::string& s) { return PluralForms::from_string("Plural-Forms: " + s); }
'''
FSYS = r'''
#include "tinygettext/file_system.hpp"
#include "tinygettext/dictionary_manager.hpp"
struct MemFS : public FileSystem {
  std::map<std::string, std::map<std::string, std::string> > dirs;
  std::vector<std::string> opened;
  std::vector<std::string> open_directory(const std::string& p) override {
    std::vector<std::string> r;
    for (auto& f : dirs[p]) r.push_back(f.first);
    return r;
  }
  std::unique_ptr<std::istream> open_file(const std::string& p) override {
    opened.push_back(p);
    std::string::size_type s = p.rfind('/');
    return std::unique_ptr<std::istream>(new std::istringstream(dirs[p.substr(0, s)][p.substr(s + 1)]));
  }
};
static std::string po(const std::string& body) {
  return "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n" + body + "\n";
}
'''


def main(body, fs=False, pre=''):
    return PRE + (FSYS if fs else '') + pre + 'int main() {\n  quiet();\n' + body + '\n  return bad;\n}\n'


PF, DI, DM, LA, IC, PO = ('src/plural_forms.cpp', 'src/dictionary.cpp', 'src/dictionary_manager.cpp', 'src/language.cpp',
                          'src/iconv.cpp', 'src/po_parser.cpp')

S('plural-be-14', 'C11', 'a Belarusian catalogue and a count of 14, 114, 214 ...',
  'Counts ending in 14 select form 1 instead of form 2.',
  [(PF, 'plural4_be(int n) { return static_cast<unsigned int>(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14)',
        'plural4_be(int n) { return static_cast<unsigned int>(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>=14)')],
  main(r'''
  PluralForms p = rule("nplurals=4; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : n%10==0 || (n%10>=5 && n%10<=9) || (n%100>=11 && n%100<=14) ? 2 : 3);");
  CHECK(p.get_nplural() == 4);
  CHECK(p.get_plural(114) == 2);
'''))

S('plural-ga-negative', 'C10', 'the Irish rule and a negative count',
  'The index for a negative count is as large as the number of forms.',
  [(PF, 'n==1 ? 0 : n==2 ? 1 : 2); }\nunsigned int plural3_lt', 'n==1 ? 0 : n==2 ? 1 : n<0 ? 2-n%2 : 2); }\nunsigned int plural3_lt')],
  main(r'''
  PluralForms p = rule("nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;");
  CHECK(p.get_nplural() == 3);
  for (int n = -10; n < 200; ++n) CHECK(p.get_plural(n) < p.get_nplural());
'''))

S('plural-negative-count', 'C12', 'a negative count that differs from its absolute value in the plural rule',
  'Negative counts select the form of the absolute value: -1 gets the singular.',
  [(DI, 'unsigned int n = plural_forms.get_plural(count);', 'unsigned int n = plural_forms.get_plural(count < 0 ? -count : count);')],
  main(r'''
  Dictionary d;
  d.set_plural_forms(rule("nplurals=2; plural=n != 1;"));
  d.add_translation("cow", "cows", std::vector<std::string>{"Kuh", "Kuehe"});
  CHECK(d.translate_plural("cow", "cows", 1) == "Kuh");
  CHECK(d.translate_plural("cow", "cows", -1) == "Kuehe");
'''))

S('ctxt-empty-shared', 'C13', 'a lookup with the empty context, which is a context of its own',
  'A lookup with an empty context is answered from the translations without context.',
  [(DI, '''std::string
Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid) const
{
  CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
''', '''std::string
Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid) const
{
  CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
  if (i == ctxt_entries.end() && msgctxt.empty())
    return translate(msgid);
'''), (DI, '''  if (i != ctxt_entries.end())
  {
    return translate(i->second, &msgctxt, msgid);''', '''  if (ctxt_entries.end() != i)
  {
    return translate(i->second, &msgctxt, msgid);''')],
  main(r'''
  Dictionary d;
  d.add_translation("open", "offen");
  CHECK(d.translate_ctxt("", "open") == "open");
  d.add_translation("", "open", std::string("oeffnen"));
  CHECK(d.translate_ctxt("", "open") == "oeffnen");
  CHECK(d.translate("open") == "offen");
'''))

S('lookup-inserts', 'C14', 'an untranslated plural lookup followed by visiting all entries',
  'Looking up an unknown plural adds an empty entry to the const dictionary.',
  [(DI, '''  Entries::const_iterator it = dict.find(msgid);
  if (it != dict.end())
  {
    unsigned int n''', '''  Entries::const_iterator it = const_cast<Entries&>(dict).insert(Entries::value_type(msgid, std::vector<std::string>())).first;
  if (it != dict.end() && !it->second.empty())
  {
    unsigned int n''')],
  main(r'''
  Dictionary d;
  d.add_translation("a", "A");
  d.translate_plural("x", "xs", 2);
  int n = 0;
  d.foreach([&](const std::string&, const std::vector<std::string>&) { ++n; });
  CHECK(n == 1);
'''))

S('collision-first-form', 'C15', 'adding a plural translation twice whose first forms agree',
  'A later translation that differs only in a plural form does not replace the earlier one.',
  [(DI, '''  else if (vec != msgstrs)
  {
    log_warning << "collision in add_translation: '"
                << msgctxt''', '''  else if (vec.size() != msgstrs.size() || vec[0] != msgstrs[0])
  {
    log_warning << "collision in add_translation: '"
                << msgctxt''')],
  main(r'''
  Dictionary d;
  d.set_plural_forms(rule("nplurals=2; plural=n != 1;"));
  d.add_translation("c", "sheep", "sheep", std::vector<std::string>{"Schaf", "Schafs"});
  d.add_translation("c", "sheep", "sheep", std::vector<std::string>{"Schaf", "Schafe"});
  CHECK(d.translate_ctxt_plural("c", "sheep", "sheep", 3) == "Schafe");
'''))

S('env-default-language', 'C22', 'no language set and an environment variable LANGUAGE that names one',
  'Without a language the manager takes one from the environment.',
  [(DM, '    else\n    {\n      return empty_dict;\n    }', '''    else if (const char* env = getenv("LANGUAGE"))
    {
      Language env_language = Language::from_env(env);
      return env_language ? get_dictionary(env_language) : empty_dict;
    }
    else
    {
      return empty_dict;
    }''')],
  main(r'''
  setenv("LANGUAGE", "de", 1);
  MemFS* fs = new MemFS;
  fs->dirs["a"]["de.po"] = po("msgid \"cow\"\nmsgstr \"Kuh\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(fs)};
  m.add_directory("a");
  CHECK(m.get_dictionary().translate("cow") == "cow");
  CHECK(fs->opened.empty());
  m.set_language(Language::from_name("de"));
  CHECK(m.get_dictionary().translate("cow") == "Kuh");
''', fs=True, pre='#include <stdlib.h>\n'))

S('dir-relative-include', 'C22', 'a file name with a slash at the end of the directory name given to the Unix file system',
  'The Unix file system lists another directory than the one it is asked for.',
  [('src/unix_file_system.cpp', 'for(auto const& p : std::filesystem::directory_iterator(pathname))',
    'for(auto const& p : std::filesystem::directory_iterator(std::filesystem::path(pathname).lexically_normal()))')],
  main(r'''
  char t[] = "fsXXXXXX";
  CHECK(mkdtemp(t));
  std::string d(t);
  std::filesystem::create_directories(d + "/x/real");
  std::filesystem::create_directories(d + "/y");
  std::ofstream(d + "/x/de.po") << "";
  std::filesystem::create_directory_symlink("../x/real", d + "/y/link");
  UnixFileSystem u;
  std::vector<std::string> v = u.open_directory(d + "/y/link/..");
  CHECK(v.size() == 2);
''', pre='#include <filesystem>\n#include <fstream>\n#include <stdlib.h>\n#include "tinygettext/unix_file_system.hpp"\n'))

S('score-asymmetric', 'C24', 'a language with a country compared with one without, in one of the two orders',
  'A country missing on the right side counts as a different one.',
  [(LA, 'else if (lhs.get_country().empty() || rhs.get_country().empty())', 'else if (lhs.get_country().empty())')],
  main(r'''
  Language a = Language::from_name("pt_BR"), b = Language::from_name("pt");
  CHECK(Language::match(a, b) == Language::match(b, a));
  CHECK(Language::match(a, b) > Language::match(a, Language::from_name("pt_PT")));
'''))

S('score-modifier-first', 'C24', 'a language with country and modifier, and candidates that lack one or the other',
  'A missing country with the right modifier scores higher than the right country with a missing modifier.',
  [(LA, '{ 9, 8, 5 }, // country match', '{ 9, 7, 5 }, // country match'), (LA, '{ 7, 6, 3 }, // country wildcard', '{ 8, 6, 3 }, // country wildcard')],
  main(r'''
  Language want = Language::from_spec("ca", "ES", "valencia");
  CHECK(want.str() == "ca_ES@valencia");
  CHECK(Language::match(want, Language::from_spec("ca", "ES")) > Language::match(want, Language::from_spec("ca", "", "valencia")));
'''))

S('alias-slovene', 'C25', 'the alias "slovene", which is not the code of the language',
  'The alias leads to Sinhala (Sri Lanka has no such row).',
  [(LA, 'language_aliases["slovene"]          = "sl_SI.ISO-8859-2";', 'language_aliases["slovene"]          = "si_SI.ISO-8859-2";')],
  main(r'''
  CHECK(Language::from_name("slovenian").get_language() == "sl");
  CHECK(Language::from_name("Slovene").get_language() == "sl");
'''))

S('row-missing', 'C25', 'a language with a country whose language has no row of its own',
  'Afrikaans has only the row for South Africa (which then is its own fallback).',
  [(LA, '''  { "af", 0,    0, "Afrikaans"                   , "Afrikaans"                },
''', '')],
  main(r'''
  for (auto c : {"aa", "af", "am", "ar", "as", "ca", "sr", "zh"}) {
    Language l = Language::from_spec(c);
    CHECK(l.str() == c);
  }
'''))

S('str-without-country', 'C26', 'a language with a modifier and no country',
  'The string form drops the modifier of a language without country.',
  [(LA, '      var += language_spec->country;\n    }\n\n    if (language_spec->modifier)', '      var += language_spec->country;\n    }\n    else\n      return var;\n\n    if (language_spec->modifier)')],
  main(r'''
  Language l = Language::from_spec("sr", "", "latin");
  CHECK(!l.get_modifier().empty());
  CHECK(l.get_country().empty());
  CHECK(l.str() == l.get_language() + "@" + l.get_modifier());
'''))

S('equal-by-code', 'C27', 'two languages that differ in their modifier only',
  'Languages that differ only in their modifier are equal, but ordered and hashed as different.',
  [(LA, '  return language_spec == rhs.language_spec;', '''  if (!language_spec || !rhs.language_spec)
    return language_spec == rhs.language_spec;
  return get_language() == rhs.get_language() && get_country() == rhs.get_country();''')],
  main(r'''
  Language a = Language::from_spec("sr"), b = Language::from_spec("sr", "", "latin");
  CHECK(!b.get_modifier().empty());
  CHECK(!(a == b) && a != b);
  CHECK((a < b) != (b < a));
'''))

S('collision-unset-callback', 'C31', 'a collision while no warning callback is set',
  'Reporting a collision calls the warning callback even when there is none.',
  [('src/dictionary.cpp', '#include "tinygettext/log_stream.hpp"', '#include "tinygettext/log_stream.hpp"\n\n#undef log_warning\n#define log_warning Log(Log::log_warning_callback).get()')],
  main(r'''
  Dictionary d;
  d.add_translation("a", "b");
  Log::set_log_warning_callback(nullptr);
  d.add_translation("a", "c");
  CHECK(d.translate("a") == "c");
'''))

S('po-warning-severity', 'C31', 'a .po file that deserves a warning (an unknown escape sequence)',
  'Warnings of the parser go to the info callback.',
  [(PO, '  log_warning << filename << ":" << line_number << ": warning: " << msg << ": " << current_line << std::endl;',
    '  log_info << filename << ":" << line_number << ": warning: " << msg << ": " << current_line << std::endl;')],
  main(r'''
  Dictionary d;
  std::istringstream in("msgid \"a\"\nmsgstr \"\\q\"\n");
  POParser::parse("x", in, d);
  CHECK(warnings > 0);
  CHECK(infos == 0);
'''))

S('languages-static', 'C32', 'two managers with different directories, the second one asked after the first',
  'The list of languages of one manager contains those of every other one.',
  [(DM, '  std::set<Language> languages;\n', '  static std::set<Language> languages;\n')],
  main(r'''
  MemFS* f = new MemFS; f->dirs["a"]["de.po"] = "";
  MemFS* g = new MemFS; g->dirs["a"]["fr.po"] = "";
  DictionaryManager m{std::unique_ptr<FileSystem>(f)}, n{std::unique_ptr<FileSystem>(g)};
  m.add_directory("a"); n.add_directory("a");
  CHECK(m.get_languages().size() == 1);
  CHECK(n.get_languages().size() == 1);
''', fs=True))

S('alias-cache', 'C32', 'two threads that look up languages by name at the same time',
  'The alias lookup keeps its last result in a static variable without protection.',
  [(LA, '  std::string name_lowercase;\n  name_lowercase.resize(name.size());', '  static std::string name_lowercase;\n  name_lowercase.resize(name.size());')],
  main(r'''
  auto work = [](const char* n, const char* want) { for (int i = 0; i < 200000; ++i) if (Language::from_name(n).get_language() != want) { bad = 1; } };
  std::thread a(work, "slovenian", "sl"), b(work, "fr", "fr"), c(work, "icelandic", "is"), e(work, "de_DE.UTF-8@euro", "de");
  a.join(); b.join(); c.join(); e.join();
  CHECK(!bad);
''', pre='#include <thread>\n'))

S('readd-directory', 'C16', 'a directory added again after another one was added',
  'Only the directory added last is recognised as present, so that the search path holds one twice.',
  [(DM, '  if(std::find(search_path.begin(), search_path.end(), pathname) == search_path.end()) {', '  if(search_path.empty() || (search_path.front() != pathname && search_path.back() != pathname)) {')],
  main(r'''
  MemFS* f = new MemFS;
  for (const char* d : {"a", "b", "c"}) f->dirs[d]["de.po"] = po(std::string("msgid \"x\"\nmsgstr \"") + d + "\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a"); m.add_directory("b"); m.add_directory("c"); m.add_directory("b");
  CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "a");
  m.remove_directory("a"); m.remove_directory("b");
  CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "c");
  m.remove_directory("c");
  CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "x");
''', fs=True))

S('search-forwards', 'C16', 'two directories that translate the same message differently',
  'The directory added last wins.',
  [(DM, 'for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)', 'for (SearchPath::iterator p = search_path.begin(); p != search_path.end(); ++p)')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["de.po"] = po("msgid \"x\"\nmsgstr \"from a\"\n");
  f->dirs["b"]["de.po"] = po("msgid \"x\"\nmsgstr \"from b\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a"); m.add_directory("b");
  CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "from a");
''', fs=True))

S('fuzzy-keeps-cache', 'C17', 'fuzzy entries disabled after a dictionary was loaded',
  'Disabling fuzzy entries leaves the dictionaries loaded with them in place.',
  [(DM, '  clear_cache();\n  use_fuzzy = t;', '  if (t && !use_fuzzy)\n    clear_cache();\n  use_fuzzy = t;')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["de.po"] = po("#, fuzzy\nmsgid \"x\"\nmsgstr \"y\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a");
  CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "y");
  m.set_use_fuzzy(false);
  CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "x");
''', fs=True))

S('language-same-code', 'C17', 'switching between two languages that differ in the country only, with a lookup in between',
  'The current dictionary stays the one of the language selected before.',
  [(DM, '    current_language = language;\n    current_dict     = nullptr;', '    if (Language::match(current_language, language) < 7)\n      current_dict   = nullptr;\n    current_language = language;')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["pt.po"] = po("msgid \"x\"\nmsgstr \"pt\"\n");
  f->dirs["a"]["pt_BR.po"] = po("msgid \"x\"\nmsgstr \"br\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a");
  m.set_language(Language::from_name("pt"));
  CHECK(m.get_dictionary().translate("x") == "pt");
  m.set_language(Language::from_name("pt_BR"));
  CHECK(m.get_dictionary().translate("x") == "br");
''', fs=True))

S('bounded-cache', 'C18', 'more than eight languages loaded while an earlier dictionary is still in use',
  'Loading another language frees dictionaries that were handed out.',
  [(DM, '    Dictionary* dict = new Dictionary(charset);', '    if (dictionaries.size() >= 8)\n      clear_cache();\n\n    Dictionary* dict = new Dictionary(charset);')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["de.po"] = po("msgid \"x\"\nmsgstr \"de\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a");
  m.get_dictionary(Language::from_name("de"));
  for (const char* l : {"fr", "it", "es", "nl", "pl", "cs", "sk", "da", "sv", "fi"}) m.get_dictionary(Language::from_name(l));
  m.get_dictionary(Language::from_name("de"));
  CHECK(f->opened.size() == 1);
''', fs=True))

S('current-not-deleted', 'C18', 'a manager destroyed while a current dictionary is selected',
  'The current dictionary is never freed.',
  [(DM, '''  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)
  {
    delete i->second;
  }
}''', '''  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)
  {
    if (i->second != current_dict)
      delete i->second;
  }
}''')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["de.po"] = po("msgid \"x\"\nmsgstr \"de\"\n");
  { MemFS* g = new MemFS(*f); DictionaryManager m{std::unique_ptr<FileSystem>(g)};
    m.add_directory("a"); m.set_language(Language::from_name("de")); m.get_dictionary(); }
  for (int i = 0; i < 2; ++i) {
    MemFS* g = new MemFS(*f);
    {
      DictionaryManager m{std::unique_ptr<FileSystem>(g)};
      m.add_directory("a");
      m.set_language(Language::from_name("de"));
      if (i) m.get_dictionary();
    }
    left[i] = live;
  }
  CHECK(left[1] <= left[0]);
''', fs=True, pre='''
#include <cstdlib>
#include <new>
static long live, left[2];
void* operator new(std::size_t n) { ++live; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) { --live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --live; std::free(p); } }
'''))

S('catch-runtime-error', 'C19', 'a file system object that throws an exception that is no std::runtime_error',
  'The failure to open a file leaves get_dictionary.',
  [(DM, '''        catch(std::exception& e)
        {
          log_error << "error: failure parsing''', '''        catch(std::runtime_error& e)
        {
          log_error << "error: failure parsing''')],
  main(r'''
  struct Bad : public MemFS {
    std::unique_ptr<std::istream> open_file(const std::string& p) override { if (p[0] == 'b') throw std::out_of_range(p); return MemFS::open_file(p); }
  };
  Bad* f = new Bad;
  f->dirs["a"]["de.po"] = po("msgid \"x\"\nmsgstr \"de\"\n");
  f->dirs["b"]["de.po"] = po("msgid \"x\"\nmsgstr \"de\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a"); m.add_directory("b");
  try { CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "de"); } catch (...) { bad = 1; }
  CHECK(errors > 0);
''', fs=True, pre='#include <stdexcept>\n'))

S('list-po-anywhere', 'C20', 'a file like fr.po.orig in the directory',
  'Languages are listed for files that do not end in .po.',
  [(DM, '      if (has_suffix(*file, ".po"))', '      if (file->find(".po") != std::string::npos)')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["de.po"] = po(""); f->dirs["a"]["fr.pot"] = po(""); f->dirs["a"]["it.po.orig"] = po("");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a");
  CHECK(m.get_languages().size() == 1);
''', fs=True))

S('score-across-directories', 'C21', 'two directories, the one searched first with the better match',
  'A directory whose best file matches less well than one searched before contributes the wrong file, or its own under a wrong name.',
  [(DM, '''    for (SearchPath::reverse_iterator p =''', '''    int best_score = 0;
    for (SearchPath::reverse_iterator p ='''), (DM, '''      std::string best_filename;
      int best_score = 0;
''', '''      std::string best_filename;
''')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["b"]["de_AT.po"] = po("msgid \"x\"\nmsgstr \"b\"\n");
  f->dirs["a"]["de.po"] = po("msgid \"y\"\nmsgstr \"a\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a"); m.add_directory("b");
  CHECK(m.get_dictionary(Language::from_name("de_AT")).translate("x") == "b");
  f->opened.clear();
  m.remove_directory("a"); m.add_directory("a", true);
  Dictionary& d = m.get_dictionary(Language::from_name("de_AT"));
  CHECK(d.translate("x") == "b");
  bool a = false;
  for (auto& s : f->opened) if (s == "a/de.po") a = true;
  CHECK(a && f->opened.size() >= 2 && f->opened[1] == "a/de.po");
''', fs=True))

S('parse-default-fuzzy', 'C23', 'fuzzy entries disabled and a file with a fuzzy entry',
  'Fuzzy entries cannot be disabled once a directory was added.',
  [(DM, '  use_fuzzy = t;', '  use_fuzzy = t || !search_path.empty();')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["de.po"] = po("#, fuzzy\nmsgid \"x\"\nmsgstr \"y\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a");
  m.set_use_fuzzy(false);
  CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "x");
''', fs=True))

S('charset-only-once', 'C23', 'a charset set by the user and two directories',
  'Dictionaries convert to UTF-8 although another charset was set, when there is more than one directory.',
  [(DM, '    Dictionary* dict = new Dictionary(charset);', '    Dictionary* dict = search_path.size() > 1 ? new Dictionary() : new Dictionary(charset);')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["de.po"] = po("msgid \"x\"\nmsgstr \"\xc3\xa4\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a"); m.add_directory("b");
  m.set_charset("ISO-8859-1");
  CHECK(m.get_dictionary(Language::from_name("de")).translate("x") == "\xe4");
''', fs=True))

S('fallback-of-str', 'C28', 'a language with country and modifier, loaded and asked for a message without translation',
  'A language with a modifier has no fallback to the language without country.',
  [(DM, '    if (!language.get_country().empty())', '    if (!language.get_country().empty() && language.get_modifier().empty())')],
  main(r'''
  MemFS* f = new MemFS;
  f->dirs["a"]["ca.po"] = po("msgid \"x\"\nmsgstr \"ca\"\n");
  f->dirs["b"]["ca_ES@valencia.po"] = po("msgid \"y\"\nmsgstr \"va\"\n");
  f->dirs["a"]["ca_ES@valencia.po"] = po("msgid \"y\"\nmsgstr \"va\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(f)};
  m.add_directory("a");
  Language l = Language::from_spec("ca", "ES", "valencia");
  CHECK(l.get_modifier() == "valencia" && l.get_country() == "ES");
  CHECK(m.get_dictionary(l).translate("y") == "va");
  CHECK(m.get_dictionary(l).translate("x") == "ca");
''', fs=True))

S('stop-at-good-match', 'C37', 'a language with country and modifier whose row without modifier comes first in the table',
  'The search stops at the first row that agrees in the country.',
  [(LA, '      if (score > best_match_score)\n', '      if (best_match_score < 8 && score > best_match_score)\n')],
  main(r'''
  Language l = Language::from_spec("ca", "ES", "valencia");
  CHECK(l.get_modifier() == "valencia" && l.get_country() == "ES");
  l = Language::from_spec("ca", "", "valencia");
  CHECK(l.get_modifier() == "valencia");
  Language s = Language::from_spec("sr", "", "latin");
  CHECK(s.get_modifier() == "latin");
'''))

S('country-up-to-dot', 'C34', 'a locale string with a country and a modifier but no codeset',
  'The country reaches to the dot even where there is none before the at sign.',
  [(LA, "std::min(dt, at) - (ln+1));", "dt - (ln+1));")],
  main(r'''
  CHECK(Language::from_env("de_AT.UTF-8@euro").str() == "de_AT");
  CHECK(Language::from_env("de_AT@euro").str() == "de_AT");
  CHECK(Language::from_env("de_AT@euro").get_country() == "AT");
'''))

S('modifier-from-codeset', 'C34', 'a locale string whose codeset is followed by nothing and is the name of a modifier',
  'The codeset is used as modifier when there is no modifier.',
  [(LA, '  return from_spec(language, country, modifier);\n}', '  if (at == std::string::npos && codeset.size() > 5)\n    modifier = codeset;\n  return from_spec(language, country, modifier);\n}')],
  main(r'''
  CHECK(Language::from_env("ca.valencia").get_modifier() == "");
  CHECK(Language::from_env("ca@valencia").get_modifier() == "valencia");
  CHECK(Language::from_env("uz.cyrillic").get_modifier() == "");
'''))

S('letters-and-digits', 'C33', 'a file name with letters behind a digit in the country',
  'Letters behind a digit of the country become capital letters.',
  [(DM, 'if(!::isalpha(s[i]))', 'if(!::isalnum(s[i]))')],
  main(r'''
  DictionaryManager m;
  CHECK(m.convertFilename2Language("zh_tw.po") == "zh_TW");
  CHECK(m.convertFilename2Language("es_419a.po") == "es_419a");
'''))

S('second-underscore', 'C33', 'a file name with a second underscore, in its modifier',
  'Every underscore is followed by capital letters, not only the first.',
  [(DM, '            if(!::isalpha(s[i]))\n                break;\n            s[i] = static_cast<char>(::toupper(s[i]));',
    '            if(::isalpha(s[i]))\n                s[i] = static_cast<char>(::toupper(s[i]));\n            else\n                underscore_found = s[i] == \'_\';')],
  main(r'''
  DictionaryManager m;
  CHECK(m.convertFilename2Language("ca_es@valencia.po") == "ca_ES@valencia");
  CHECK(m.convertFilename2Language("ca_es@old_style") == "ca_ES@old_style");
'''))


# a converter of the demonstration's own: every character becomes OUT characters, the final sequence is FIN long
ICONV = r'''
#include <cerrno>
#include <cstring>
#include <iconv.h>
static int opened, closed, fail_with;
static size_t OUT = 1, FIN = 0;
static bool final_written;
extern "C" iconv_t iconv_open(const char*, const char*)
{
  if (fail_with) { errno = fail_with; return (iconv_t)-1; }
  ++opened;
  return (iconv_t)(new int(0));
}
extern "C" int iconv_close(iconv_t cd) { ++closed; delete (int*)cd; return 0; }
extern "C" size_t iconv(iconv_t, char** in, size_t* inl, char** out, size_t* outl)
{
  if (!in || !*in)
  {
    if (!out) { final_written = false; return 0; }
    if (final_written) return 0;
    if (*outl < FIN) { errno = E2BIG; return (size_t)-1; }
    memset(*out, '.', FIN);
    *out += FIN; *outl -= FIN; final_written = true;
    return 0;
  }
  while (*inl)
  {
    if (*outl < OUT) { errno = E2BIG; return (size_t)-1; }
    memset(*out, **in, OUT);
    *out += OUT; *outl -= OUT; ++*in; --*inl;
  }
  return 0;
}
'''

S('leak-same-source', 'C29', 'a converter that is set to another target charset with the same source charset as before',
  'The old descriptor is closed only when the source charset is another one.',
  [(IC, '  if (cd)\n  {\n    tinygettext::iconv_close(cd);', '  if (cd && from_charset_ != from_charset)\n  {\n    tinygettext::iconv_close(cd);')],
  main(r'''
  {
    IConv c;
    c.set_charsets("UTF-8", "A");
    c.set_charsets("UTF-8", "B");
    c.set_charsets("UTF-16", "B");
  }
  CHECK(opened == 3);
  CHECK(closed == 3);
''', pre=ICONV))

S('open-fails-for-want-of-memory', 'C29', 'a descriptor that cannot be opened for another reason than an unknown charset (out of memory, too many open files)',
  'Only an unknown charset counts as failure, after anything else the object goes on with a descriptor that does not exist.',
  [(IC, 'if (cd == reinterpret_cast<iconv_t>(-1))', 'if (cd == reinterpret_cast<iconv_t>(-1) && errno != ENFILE)')],
  main(r'''
  for (int e : { EINVAL, ENOMEM, ENFILE })
  {
    fail_with = e;
    bool thrown = false;
    IConv* c = new IConv; // not deleted: it may hold what cannot be closed
    try { c->set_charsets("UTF-8", "A"); } catch (std::runtime_error&) { thrown = true; }
    CHECK(thrown);
  }
''', pre=ICONV))

S('no-room-for-the-end', 'C30', 'an output that fills the buffer so far that the final sequence of a stateful charset does not fit',
  'Too little room is dealt with only while there is text left, not for the sequence back to the initial state.',
  [(IC, 'else if (errno == E2BIG)', 'else if (errno == E2BIG && inbytesleft > 0)')],
  main(r'''
  IConv c("UTF-8", "A");
  OUT = 1; FIN = 3;
  CHECK(c.convert("abc") == "abc...");
  OUT = 8; FIN = 3;
  CHECK(c.convert("abcd") == std::string(8, 'a') + std::string(8, 'b') + std::string(8, 'c') + std::string(8, 'd') + "...");
''', pre=ICONV))

S('room-left-but-too-little', 'C30', 'a character whose output needs more room than is left while some is left (a transliteration)',
  'A full buffer is taken as too little room only when less than eight bytes are left.',
  [(IC, 'else if (errno == E2BIG)', 'else if (errno == E2BIG && outbytesleft < 8)')],
  main(r'''
  IConv c("UTF-8", "A");
  OUT = 7;
  CHECK(c.convert("abcdefgh").size() == 56);
  OUT = 18;
  CHECK(c.convert("abcdefgh").size() == 144);
''', pre=ICONV))


# ---------------------------------------------------------------- the reader of .po files
READ = r'''
#include <csignal>
#include <unistd.h>
static void read_po(Dictionary& d, const std::string& text, bool use_fuzzy = true)
{
  std::istringstream in(text);
  alarm(20);
  POParser::parse("test.po", in, d, use_fuzzy);
}
static int entries(Dictionary& d)
{
  int n = 0;
  d.foreach([&n](const std::string&, const std::vector<std::string>&) { ++n; });
  d.foreach_ctxt([&n](const std::string&, const std::string&, const std::vector<std::string>&) { ++n; });
  return n;
}
static const std::string HEAD = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
'''

S('stream-fails-without-end', 'C01', 'a stream that fails (an exception of its buffer) without ever coming to its end',
  'Only the end of the stream ends the reading: when reading fails in the middle, the last line is looked at for ever.',
  [(PO, 'if (!std::getline(in, current_line))', 'if (!std::getline(in, current_line) && in.eof())')],
  main(r'''
  struct Buf : std::streambuf {
    std::string s;
    Buf() : s(HEAD + "msgid \"a\"\nmsgstr \"b\"\n\nbroken\n") { setg(&s[0], &s[0], &s[0] + s.size()); }
    int_type underflow() override { throw std::runtime_error("read error"); }
  } buf;
  std::istream in(&buf);
  Dictionary d;
  alarm(20);
  POParser::parse("test.po", in, d);
  CHECK(d.translate("a") == "b");
''', pre=READ))

S('header-line-skipped', 'C01', 'a header whose Content-Type line is malformed',
  'The search for the next line of the header starts again at the malformed line.',
  [(PO, "  for(std::string::size_type i = 0; i < header.length(); ++i)\n  {\n    if (header[i] == '\\n')\n    {",
        "  for(std::string::size_type i = header.find('\\n'); i != std::string::npos; i = header.find('\\n', start))\n  {\n    {"),
   (PO, '          warning("malformed Content-Type header");', '          warning("malformed Content-Type header");\n          continue;')],
  main(r'''
  Dictionary d;
  read_po(d, "msgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n");
  CHECK(d.translate("a") == "b");
  Dictionary e;
  read_po(e, "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/html\\n\"\n\"Language: de\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n");
  CHECK(e.translate("a") == "b");
''', pre=READ))

S('flag-survives-error', 'C03', 'a malformed fuzzy entry in front of a good one, with fuzzy entries disabled',
  'The fuzzy flag is taken back only behind a good entry, so that of an abandoned entry drops the next one.',
  [(PO, '      bool fuzzy =  false;\n', ''),
   (PO, '  while(!eof)\n  {\n    try', '  bool fuzzy =  false;\n  while(!eof)\n  {\n    try'),
   (PO, '''          error("expected 'msgstr' or 'msgid_plural'");
        }
''', '''          error("expected 'msgstr' or 'msgid_plural'");
        }
        fuzzy = false;
''')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "#, fuzzy\nmsgid \"x\"\nmsgstr \"y\"\n\nmsgid \"a\"\nmsgstr \"b\"\n\n#, fuzzy\nmsgid \"c\"\nmsgstr d\n\nmsgid \"e\"\nmsgstr \"f\"\n", false);
  CHECK(d.translate("x") == "x");
  CHECK(d.translate("a") == "b");
  CHECK(d.translate("e") == "f");
''', pre=READ))

S('context-survives-error', 'C03', 'a malformed entry with context in front of one without',
  'That there is a context is forgotten only behind a good entry, so the entry behind a malformed one gets an empty context.',
  [(PO, '      bool has_msgctxt = false;\n', ''),
   (PO, '  while(!eof)\n  {\n    try', '  bool has_msgctxt = false;\n  while(!eof)\n  {\n    try'),
   (PO, '''          error("expected 'msgstr' or 'msgid_plural'");
        }
''', '''          error("expected 'msgstr' or 'msgid_plural'");
        }
        has_msgctxt = false;
''')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgctxt \"x\"\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgctxt \"x\"\nmsgid \"a2\"\nmsgtr \"b\"\n\nmsgid \"e\"\nmsgstr \"f\"\n");
  CHECK(d.translate("c") == "d");
  CHECK(d.translate_ctxt("x", "a") == "b");
  CHECK(d.translate("e") == "f");
''', pre=READ))

S('forms-survive-error', 'C03', 'a malformed plural entry in front of one with fewer forms',
  'The forms of the last plural entry are dropped only when it was complete.',
  [(PO, '          std::vector<std::string> msgstr_num;\n', ''),
   (PO, '  while(!eof)\n  {\n    try', '  std::vector<std::string> msgstr_num;\n  while(!eof)\n  {\n    try'),
   (PO, '''          error("expected 'msgstr' or 'msgid_plural'");
        }
''', '''          error("expected 'msgstr' or 'msgid_plural'");
        }
        msgstr_num.clear();
''')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"v\"\nmsgstr[1] \"w\"\nmsgstr \"z\"\n\n"
             "msgid \"c\"\nmsgid_plural \"cs\"\nmsgstr[0] \"t\"\n");
  CHECK(d.translate_plural("a", "as", 2) == "y");
  CHECK(d.translate_plural("c", "cs", 1) == "t");
  CHECK(d.translate_plural("c", "cs", 2) == "cs");
''', pre=READ))

S('big5-lead-bytes', 'C04', 'a Big5 file with a character whose first byte is below 0xa1 and whose second one is a backslash',
  'Only the first bytes of the standard plane are taken as such, the user-defined ones below are not.',
  [(PO, 'static_cast<unsigned char>(current_line[i]) >= 0x81', 'static_cast<unsigned char>(current_line[i]) >= 0xa1')],
  main(r'''
  Dictionary d("BIG5");
  read_po(d, "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=BIG5\\n\"\n\nmsgid \"a\"\nmsgstr \"\xa4\x5c\x6e\"\n\nmsgid \"b\"\nmsgstr \"\x81\x5c\x6e\"\n");
  CHECK(d.translate("a") == "\xa4\\n");
  CHECK(d.translate("b") == "\x81\\n");
''', pre=READ))

S('unknown-escape-loses', 'C04', 'an escape that C does not know',
  'Of an unknown escape only the character behind the backslash is kept.',
  [(PO, 'out << current_line[i-1] << current_line[i];', 'out << current_line[i];')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgstr \"50\\% \\\\ \\n\"\n");
  CHECK(d.translate("a") == "50\\% \\ \n");
''', pre=READ))

S('continued-behind-tab', 'C04', 'a continuation line that is indented by a tab',
  'A continuation line may be indented by spaces only.',
  [(PO, "    else if (isspace(current_line[i]))\n    {\n      // skip", "    else if (current_line[i] == ' ')\n    {\n      // skip")],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgstr \"b\"\n  \"c\"\n\nmsgid \"d\"\nmsgstr \"e\"\n\t\"f\"\n");
  CHECK(d.translate("a") == "bc");
  CHECK(d.translate("d") == "ef");
''', pre=READ))

LATIN = r'''
static const std::string HEAD1 = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
'''

S('context-is-converted', 'C05', 'a context that is not plain ASCII in a file in another charset than that of the dictionary',
  'The context of a singular entry is converted like its translation, so it is not found under the text of the program.',
  [(PO, 'dict.add_translation(msgctxt, msgid, conv.convert(msgstr));', 'dict.add_translation(conv.convert(msgctxt), msgid, conv.convert(msgstr));')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD1 + "msgctxt \"x\"\nmsgid \"a\"\nmsgstr \"\xe4\"\n\nmsgctxt \"\xe4\"\nmsgid \"a\"\nmsgstr \"b\"\n");
  CHECK(d.translate_ctxt("x", "a") == "\xc3\xa4");
  CHECK(d.translate_ctxt("\xe4", "a") == "b");
''', pre=READ + LATIN))

S('first-form-raw', 'C05', 'a plural entry in a file in another charset that gives its forms out of order',
  'Only a form that makes the list longer is converted.',
  [(PO, '            if (number >= msgstr_num.size())\n              msgstr_num.resize(number+1);\n\n            msgstr_num[number] = conv.convert(msgstr);',
        '            if (number < msgstr_num.size())\n              msgstr_num[number] = msgstr;\n            else\n            {\n              msgstr_num.resize(number+1);\n              msgstr_num[number] = conv.convert(msgstr);\n            }')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD1 + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"\xe4\"\nmsgstr[1] \"\xf6\"\n\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[1] \"\xf6\"\nmsgstr[0] \"\xe4\"\n");
  CHECK(d.translate_plural("a", "as", 1) == "\xc3\xa4");
  CHECK(d.translate_plural("a", "as", 2) == "\xc3\xb6");
  CHECK(d.translate_plural("b", "bs", 1) == "\xc3\xa4");
  CHECK(d.translate_plural("b", "bs", 2) == "\xc3\xb6");
''', pre=READ + LATIN))

S('last-flags-count', 'C06', 'an entry with two comments of flags, of which only the first says fuzzy',
  'A later comment of flags takes back what an earlier one says.',
  [(PO, '''          if (current_line.find("fuzzy", 2) != std::string::npos)
            fuzzy = true;''', '''          fuzzy = current_line.find("fuzzy", 2) != std::string::npos;''')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "#, fuzzy, c-format\nmsgid \"a\"\nmsgstr \"b\"\n\n#, fuzzy\n#, c-format\nmsgid \"c\"\nmsgstr \"d\"\n", false);
  CHECK(d.translate("a") == "a");
  CHECK(d.translate("c") == "c");
''', pre=READ))

S('flag-in-front', 'C06', 'an entry whose fuzzy flag is not the first one of its comment',
  'Only the first flag of a comment is looked at.',
  [(PO, 'if (current_line.find("fuzzy", 2) != std::string::npos)', 'if (current_line.compare(2, 6, " fuzzy") == 0)')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "#, fuzzy, c-format\nmsgid \"a\"\nmsgstr \"b\"\n\n#, c-format, fuzzy\nmsgid \"c\"\nmsgstr \"d\"\n", false);
  CHECK(d.translate("a") == "a");
  CHECK(d.translate("c") == "c");
''', pre=READ))

S('forms-in-order', 'C07', 'a plural entry that gives its forms out of order',
  'The forms are stored in the order in which they are given, whatever their numbers.',
  [(PO, '            if (number >= msgstr_num.size())\n              msgstr_num.resize(number+1);\n\n            msgstr_num[number] = conv.convert(msgstr);',
        '            if (number >= msgstr_num.size())\n              msgstr_num.push_back(conv.convert(msgstr));\n            else\n              msgstr_num[number] = conv.convert(msgstr);')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[1] \"w\"\nmsgstr[0] \"v\"\n");
  CHECK(d.translate_plural("a", "as", 2) == "y");
  CHECK(d.translate_plural("b", "bs", 2) == "w");
  CHECK(d.translate_plural("b", "bs", 1) == "v");
''', pre=READ))

S('empty-context-dropped', 'C07', 'an entry with an empty context',
  'A plural entry whose context is the empty text is stored as if it had none.',
  [(PO, '''	      if (has_msgctxt)
		dict.add_translation(msgctxt, msgid, msgid_plural, msgstr_num);''', '''	      if (!msgctxt.empty())
		dict.add_translation(msgctxt, msgid, msgid_plural, msgstr_num);''')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgctxt \"\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n");
  CHECK(d.translate_ctxt_plural("", "a", "as", 2) == "y");
  CHECK(d.translate_plural("a", "as", 2) == "as");
''', pre=READ))

S('empty-forms-stored', 'C08', 'a plural entry all of whose forms are empty, and which has more than one',
  'A plural entry counts as translated as soon as it has a second form.',
  [(PO, '	    if(!msgstr.empty())\n', '	    if(!msgstr.empty() || number > 0)\n')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"\"\n\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n");
  CHECK(entries(d) == 0);
''', pre=READ))

S('empty-with-context', 'C08', 'an untranslated entry with context',
  'An entry with context is stored although its translation is empty.',
  [(PO, '          else if(!msgstr.empty())', '          else if(has_msgctxt || !msgstr.empty())')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgstr \"\"\n\nmsgctxt \"x\"\nmsgid \"a\"\nmsgstr \"\"\n");
  CHECK(entries(d) == 0);
''', pre=READ))

S('header-is-stored', 'C09', 'a dictionary whose entries are counted or visited after reading a file with a header',
  'The header is stored as translation of the empty text as well.',
  [(PO, '            parse_header(msgstr);\n          }\n          else if(!msgstr.empty())', '            parse_header(msgstr);\n          }\n\n          if(!msgstr.empty())')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgstr \"b\"\n");
  CHECK(d.translate("a") == "b");
  CHECK(entries(d) == 1);
''', pre=READ))

S('empty-context-is-header', 'C09', 'an entry with an empty context and an empty id',
  'An entry whose context is the empty text is taken as one without, and with an empty id as the header.',
  [(PO, "          has_msgctxt = true;\n          msgctxt = get_string(7);", "          msgctxt = get_string(7);\n          has_msgctxt = !msgctxt.empty();")],
  main(r'''
  Dictionary d;
  read_po(d, "msgctxt \"\"\nmsgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n");
  CHECK(d.translate("a") == "b");
  CHECK(!d.get_plural_forms());
''', pre=READ))

# ---------------------------------------------------------------- C02
GLIB = '-D_GLIBCXX_ASSERTIONS "$PWD"/src/*.cpp '
BIG = r'''
static const std::string BIG5 = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=BIG5\\n\"\n\n";
'''

S('big5-cut-off', 'C02', 'a Big5 file with a line that ends in the middle of a character',
  'The end of the line counts as second byte of a character, and reading goes on behind it.',
  [(PO, '      if (i >= current_line.size())\n        error("invalid big5', '      if (i > current_line.size())\n        error("invalid big5')],
  main(r'''
  Dictionary d("BIG5");
  read_po(d, BIG5 + "msgid \"a\"\nmsgstr \"\xa4\n\nmsgid \"b\"\nmsgstr \"c\"\n");
  CHECK(d.translate("b") == "c");
''', pre=READ + BIG), flags=GLIB)

S('backslash-at-the-end', 'C02', 'a line that ends with a backslash inside of its string',
  'The end of the line counts as the character behind the backslash, and reading goes on behind it.',
  [(PO, '''      if (i >= current_line.size())
        error("unexpected end of string in handling''', '''      if (i > current_line.size())
        error("unexpected end of string in handling''')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgstr \"b\\\n\nmsgid \"b\"\nmsgstr \"c\"\n");
  CHECK(d.translate("b") == "c");
''', pre=READ), flags=GLIB)

S('room-as-declared', 'C02', 'a plural entry with more forms than its Plural-Forms header declares',
  'Room is made once, for as many forms as the header declares.',
  [(PO, '            if (number >= msgstr_num.size())\n              msgstr_num.resize(number+1);',
        '            if (msgstr_num.empty())\n              msgstr_num.resize(std::max(number+1, dict.get_plural_forms().get_nplural()));')],
  main(r'''
  Dictionary d;
  read_po(d, HEAD + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\nmsgstr[2] \"z\"\n\nmsgid \"b\"\nmsgstr \"c\"\n");
  CHECK(d.translate("b") == "c");
  CHECK(d.translate_plural("a", "as", 2) == "y");
''', pre=READ), flags=GLIB)

S('last-form-missing', 'C02', 'a plural entry that lacks exactly the form that is asked for, its last one',
  'The index right behind the last form counts as one of a form.',
  [(DI, '    if (n >= msgstrs.size())', '    if (n > msgstrs.size())')],
  main(r'''
  Dictionary d;
  d.set_plural_forms(rule("nplurals=2; plural=(n != 1);"));
  std::vector<std::string> v(1, "x");
  d.add_translation("a", "as", v);
  CHECK(d.translate_plural("a", "as", 1) == "x");
  CHECK(d.translate_plural("a", "as", 2) == "as");
'''), flags=GLIB)

S('name-of-nothing', 'C02', 'the localized name of an undefined language',
  'The row of a language is looked at without one.',
  [(LA, '  if(language_spec && language_spec->name_localized)', '  if(language_spec->name_localized)')],
  main(r'''
  Language l;
  CHECK(l.get_localized_name() == "");
''', pre='#include "tinygettext/language.hpp"\n'))

S('unnamed-in-its-own-language', 'C02', 'the localized name of one of the languages that have none, such as af_ZA',
  'A missing localized name is taken for a text.',
  [(LA, '  if(language_spec && language_spec->name_localized)', '  if(language_spec)')],
  main(r'''
  CHECK(Language::from_name("af").get_localized_name() == "Afrikaans");
  CHECK(Language::from_name("af_ZA").get_localized_name() == "Afrikaans (South Africa)");
''', pre='#include "tinygettext/language.hpp"\n'))

S('no-stream', 'C02', 'a file system that gives no stream for a file it has listed',
  'The stream is looked at without one.',
  [(DM, '          if (!in || !*in)', '          if (!*in)')],
  main(r'''
  struct NoStream : public MemFS {
    std::unique_ptr<std::istream> open_file(const std::string& p) override {
      if (p == "/a/de.po") return std::unique_ptr<std::istream>();
      return MemFS::open_file(p);
    }
  };
  NoStream* fs = new NoStream;
  fs->dirs["/a"]["de.po"] = "";
  fs->dirs["/b"]["de.po"] = po("msgid \"a\"\nmsgstr \"b\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(fs)};
  m.add_directory("/a");
  m.add_directory("/b");
  CHECK(m.get_dictionary(Language::from_name("de")).translate("a") == "b");
''', fs=True))

S('country-behind-the-end', 'C02', 'a locale string with an underscore at its end',
  'What follows an underscore is taken without asking whether there is something, from one character further on.',
  [(LA, '''  if (ln != std::string::npos && ln+1 < env.size()) // _
  {
    country = env.substr(ln+1, (std::min(dt, at) == std::string::npos) ? std::string::npos : std::min(dt, at) - (ln+1));''',
        '''  if (ln != std::string::npos) // _
  {
    country = env.substr(ln+1, 1);
    country += env.substr(ln+2, (std::min(dt, at) == std::string::npos) ? std::string::npos : std::min(dt, at) - (ln+2));''')],
  main(r'''
  CHECK(Language::from_env("de_AT").get_country() == "AT");
  CHECK(Language::from_env("de_").get_language() == "de");
''', pre='#include "tinygettext/language.hpp"\n'))

S('slot-before-dictionary', 'C02', 'a file system that fails while a language is loaded, and another lookup of that language',
  'The place in the cache is made before what it holds, and stays empty when finding the files fails.',
  [(DM, '    Dictionary* dict = new Dictionary(charset);\n\n    dictionaries[language] = dict;\n',
        '    Dictionary*& slot = dictionaries[language];\n    if (!search_path.empty())\n      filesystem->open_directory(search_path.front());\n    Dictionary* dict = slot = new Dictionary(charset);\n')],
  main(r'''
  struct Failing : public MemFS {
    bool fail = true;
    std::vector<std::string> open_directory(const std::string& p) override {
      if (fail) throw std::runtime_error("cannot list " + p);
      return MemFS::open_directory(p);
    }
  };
  Failing* fs = new Failing;
  fs->dirs["/a"]["de.po"] = po("msgid \"a\"\nmsgstr \"b\"\n");
  DictionaryManager m{std::unique_ptr<FileSystem>(fs)};
  m.add_directory("/a");
  try { m.get_dictionary(Language::from_name("de")); } catch (std::exception&) {}
  std::string t = m.get_dictionary(Language::from_name("de")).translate("a");
  CHECK(t == "a" || t == "b");
''', fs=True, pre='#include <stdexcept>\n'))
