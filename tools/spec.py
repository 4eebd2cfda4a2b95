"""The properties, and per property how it is claimed.  python3 tools/gen.py writes properties.jsonl and MANIFEST.json."""
PO, DI, DM, IC, LA, PF, LO, FS = ('src/po_parser.cpp', 'src/dictionary.cpp', 'src/dictionary_manager.cpp', 'src/iconv.cpp',
                                  'src/language.cpp', 'src/plural_forms.cpp', 'src/log.cpp', 'src/unix_file_system.cpp')
H = 'include/tinygettext/'
TESTS = 'The four tests run command line tools on a few well-formed inputs and look at the exit status only. '

PROPS = []


def P(id, title, statement, over, quant, why, files, mechanism, technique=None, note=None, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


P('C01', 'Parsing a .po file always terminates',
  'Reading a .po stream finishes after finitely many steps whatever bytes it contains, wherever it is cut off and whenever the stream starts to fail; every round of every loop either consumes input or makes bounded progress. After an error in one entry the reader moves on and never re-reads the same line for ever.',
  ['inputs', 'fault_sequences'], 'every byte sequence, every truncation point, every point at which the stream fails',
  TESTS + 'A hang needs one specific malformed or truncated input.', [PO],
  [dict(name='line reader and end-of-input flag', where=PO + ' next_line'), dict(name='error recovery', where=PO + ' error'),
   dict(name='entry loop', where=PO + ' parse')],
  technique='termination by progress: abstract interpretation of every loop the reader can reach, each way round must consume input, set a lasting flag or approach a fixed bound; no recursion',
  note='Streams and lines are arbitrary, failing at any point. A loop form whose progress is not recognised is undecided, not passed. Loops inside the standard library and iconv() are taken to end.')

P('C02', 'No input makes the library access memory out of bounds or crash',
  'Whatever the content of a .po file, a locale string, a file name, a header or a lookup key, no public operation reads or writes outside a string, vector or table, dereferences a null pointer, fails an assertion or lets an out-of-range error escape. (Passing a null callback, a null file system or an undefined language where one is required is the caller\'s mistake.)',
  ['inputs'], 'every argument of every public operation, every .po content',
  TESTS + 'Each access is safe only for the lengths the tests happen to use.', [PO, DI, DM, IC, LA, PF],
  [dict(name='length tests before indexing a line', where=PO + ' get_string, get_string_line, parse'),
   dict(name='npos handling of split positions', where=LA + ' from_env'),
   dict(name='file name to language', where=DM + ' convertFilename2Language')],
  technique='obligations by abstract interpretation of every public operation on arbitrary arguments and objects: each index inside, each pointer followed not null, no assertion or out-of-range exception; invariants of the manager for kept pointers',
  note='Objects are in any state their invariants allow. An index that the conditions of the path do not bound is reported only with a sample text that takes the path; otherwise undecided. Overflow of integer arithmetic, running out of memory or stack, and what iconv() and the C library do inside are not covered. The assertion in Language::from_spec follows from C24 and is decided there.')

P('C03', 'A malformed entry does not affect the other entries',
  'When an entry of a .po file is malformed, reading that entry is reported through the error callback and abandoned, and reading goes on behind the next empty line; no error about an entry escapes from parsing. Nothing of an abandoned entry (its fuzzy flag, context, keys or strings) is carried over into a later entry.',
  ['inputs', 'histories'], 'every sequence of well-formed and malformed entries',
  TESTS + 'Which state survives an error depends on where in an entry it occurs.', [PO],
  [dict(name='recovery to the next empty line', where=PO + ' error'), dict(name='per-entry state', where=PO + ' parse')],
  technique='typestate of the entry being read, by abstract interpretation of the parser on an arbitrary stream, with summaries of the functions that read strings',
  note='Covers every path through one entry from an arbitrary state of the parser, so every sequence of entries by induction. Whether a line can be empty (and so on) is decided on sample lines.')

P('C04', 'Escape sequences are decoded as in C',
  'In a quoted string, \\a \\b \\f \\n \\r \\t \\v \\" and \\\\ stand for the characters they stand for in C, an unknown escape is kept literally (backslash and character) with a warning, and every other character stands for itself, including both bytes of a two-byte Big5 character whose second byte looks like a backslash or a quote. Characters appear in the result once each and in the order of the file, continuation lines are joined without separator, and the text up to the closing quote is what counts.',
  ['inputs'], 'every quoted string, with and without Big5',
  TESTS + 'The decoded text is never compared with anything.', [PO],
  [dict(name='escape switch', where=PO + ' get_string_line'), dict(name='continuation lines', where=PO + ' get_string')],
  technique='abstract interpretation of the string reader; each transition of its character loop compared with the specified decoder for all 256 bytes and all 65536 pairs; results compared as terms',
  note='Every way round the loop, for every byte value the conditions on the path allow, with and without Big5.')

P('C05', 'Translations are converted to the requested charset exactly once',
  'Every translation that the .po reader stores has passed through the conversion from the charset the file declares to the charset of the dictionary exactly once; message ids, plural ids and contexts are stored unconverted. This holds for singular and plural entries, with and without context.',
  ['inputs', 'configurations'], 'every entry of every file, every pair of charsets',
  TESTS + 'Double or missing conversion is invisible for plain ASCII.', [PO, IC],
  [dict(name='conversion before add_translation', where=PO + ' parse')],
  technique='abstract interpretation of the parser with the conversion as an uninterpreted function; stored terms compared with the specified ones',
  note='Every path to each addition, any number of forms in any order. That convert() itself does its work is C29 and C30.')

P('C06', 'Fuzzy entries are used exactly when fuzzy entries are enabled',
  'An entry is stored when it is not flagged fuzzy or when using fuzzy entries is enabled, and is dropped when it is flagged and they are disabled. The flag is found anywhere in a "#," comment of that entry, and only concerns that entry; this holds for singular and plural entries, with and without context. A complete, well-formed entry with a translation (the header aside) is never rejected or dropped for another reason.',
  ['inputs', 'configurations'], 'every entry, both settings',
  TESTS + 'No test disables fuzzy entries.', [PO],
  [dict(name='flag comment', where=PO + ' parse'), dict(name='use_fuzzy test at the four places that store', where=PO + ' parse')],
  technique='typestate of the entry being read (flag seen), by abstract interpretation of the parser on an arbitrary stream',
  note='Covers every path through one entry. What counts as a flag comment, and which lines may follow, is decided by evaluating the conditions of the path on sample lines.')

P('C07', 'Each translation is stored under the key and index it was given for',
  'What the .po reader stores is keyed by the text of the msgid line of the same entry, under the context given by its msgctxt line exactly when it has one, and the text of msgstr[N] ends up as form number N. The ids, the context and the strings of one entry are never mixed up with each other or with those of another entry.',
  ['inputs', 'histories'], 'every entry, every N from 0 to 9, every order of the forms',
  TESTS + 'No test looks up what was read.', [PO],
  [dict(name='keyword dispatch', where=PO + ' parse'), dict(name='digit to index', where=PO + ' parse')],
  technique='abstract interpretation of the parser on an arbitrary stream; what is stored is traced to the line it was read from and compared as terms',
  note='Every path to each addition, any number of forms in any order.')

P('C08', 'An empty translation is never stored or returned',
  'Reading a .po file never stores an entry whose translation is empty (all forms empty for a plural entry), so such a message counts as untranslated (what counts is the text in the file). A lookup never answers a non-empty message id with an empty text, whatever has been added to the dictionary.',
  ['inputs', 'histories'], 'every entry and every content of the dictionary',
  TESTS + 'Needs entries with empty strings.', [PO, DI],
  [dict(name='non-empty tests', where=PO + ' parse'), dict(name='non-empty tests in lookups', where=DI)],
  technique='abstract interpretation of the parser (emptiness of the strings as typestate) and of every lookup on an arbitrary dictionary',
  note='Every path to an addition, and every path of every lookup. The fallback dictionary is assumed to have the property itself.')

P('C09', 'Only the entry with an empty id and no context is the header',
  'The text of an entry is interpreted as header (charset, plural rule) exactly when its message id is empty and it has no context (and it is a singular one); it is then not stored as a translation. No other entry changes the charset conversion or the plural rule of the dictionary.',
  ['inputs'], 'every entry of every file',
  TESTS + 'Needs an entry with context and empty id, or text that looks like a header.', [PO],
  [dict(name='header test', where=PO + ' parse')],
  technique='typestate of the entry being read (singular, empty id, no context), by abstract interpretation of the parser on an arbitrary stream',
  note='Every path on which the converter or the plural rule of the dictionary is changed, and every end of an entry.')

P('C10', 'A plural rule never selects a form it does not have',
  'For every plural rule the library recognises in a header, the index it selects is smaller than the number of forms of the rule, for every int count, including 0 and negative counts.',
  ['inputs'], 'every recognised rule x every int',
  TESTS + 'Three counts of one rule are looked at.', [PF],
  [dict(name='plural functions and their table', where=PF)],
  technique='constant propagation into the rule table + abstract interpretation over a finite partition of int',
  note='Covers every association the lookup can return, and every int, by classes that the code cannot tell apart; an association or a function outside the partition domain is reported as undecided.')

P('C11', 'The recognised plural rules compute what the header says',
  'For every plural rule the library recognises, the form it selects for a count (0 and up) is the value of the formula in the header, evaluated as the C expression it is, and the number of forms is the declared one. All rules recognised today stay recognised, whatever white space the header contains.',
  ['inputs'], 'every recognised rule x every non-negative int',
  TESTS + 'Three counts of one rule are looked at.', [PF],
  [dict(name='plural functions and their table', where=PF)],
  technique='constant propagation into the rule table + comparison with the parsed formula over a finite partition of int',
  note='As C10; the list of headers that must stay recognised is frozen in the checker (the 25 of the current tree, each cross-checked with its own formula).')

P('C12', 'Lookups return the stored form, or the English form',
  'A message without translation yields the message id itself, and in the plural case the id for a count of exactly 1 and the plural id for every other count; a message with a translation yields the stored text, in the plural case the form the plural rule selects for the count. When the selected form is missing or empty, the answer is the untranslated one.',
  ['inputs', 'histories'], 'every dictionary content, id, count and plural rule',
  TESTS + 'Needs combinations of content, rule and count.', [DI],
  [dict(name='translate, translate_plural and the _ctxt variants', where=DI)],
  technique="abstract interpretation of composed public operations; each path's answer compared with the specified term",
  note='Every path of add + lookup on fresh and on arbitrary dictionaries, with unbounded ids and counts. Containers are modelled, loops over them are summarised; a path that needed an approximation is undecided, not passed.')

P('C13', 'Contexts are separate, and the fallback sees the same question',
  'A message is only ever answered from the context it is asked for: translations without context never answer a lookup with context nor the reverse, and two contexts never answer for each other. When a dictionary has no translation and has a fallback, all four kinds of lookups return what the fallback answers to exactly the same question.',
  ['inputs', 'histories'], 'every content of the dictionary and its fallback',
  TESTS + 'No test has the same id in two contexts with a fallback.', [DI],
  [dict(name='separate tables, fallback forwarding', where=DI)],
  technique='non-interference by abstract interpretation: answers before and after an addition compared as terms; fallback answers as opaque functions of the question',
  note='Every path of addition + lookup on an arbitrary dictionary; the fallback dictionary is an uninterpreted function of kind and arguments.')

P('C14', 'Looking up translations changes nothing',
  'No lookup or query operation (translating in all four ways, asking for plural forms, charset, language parts, scores, visiting all entries) changes the dictionary, the language or any shared state, so that lookups from several threads on an unchanging dictionary are safe and repeated lookups agree. The only effect allowed is a diagnostic message.',
  ['schedules', 'histories'], 'every lookup, every interleaving of lookups',
  TESTS + 'Single-threaded, each lookup once.', [DI, LA, PF],
  [dict(name='const lookups', where=DI)],
  technique='effect analysis by abstract interpretation (writes to pre-existing memory, hidden library state)',
  note='Covers every query operation of the public interface and everything it calls; the standard library is modelled. Data races of the standard library itself are out of scope.')

P('C15', 'The last translation added wins',
  'After adding a translation, looking up that id (in that context) yields the text just added, whatever was stored before; a different earlier text is replaced with a warning. Adding changes no other id and no other context, in all four ways of adding.',
  ['histories'], 'every content of the dictionary before the addition',
  TESTS + 'Nothing is added twice and looked up.', [DI],
  [dict(name='collision handling', where=DI + ' add_translation (4)')],
  technique='abstract interpretation of add + lookup; answers compared as terms',
  note='Every path of addition + lookup on an arbitrary dictionary, for the four ways of adding.')

P('C16', 'Directories added earlier take precedence',
  'A translation from a directory added earlier to the search path overrides one from a directory added later, and a directory added with precedence overrides all present ones. The search path never holds a directory twice, removing takes out just that directory, and adding one again changes nothing.',
  ['histories', 'configurations'], 'every sequence of additions and removals',
  TESTS + 'One directory is used.', [DM],
  [dict(name='reverse iteration, push_front / push_back', where=DM)],
  technique='abstract interpretation of get_dictionary with loops kept as loops (course of the index over the search path); of the search path operations on an arbitrary path, with the resulting sequence compared as terms',
  note='Every path through the operations, any number of directories. That the file parsed last wins is C15; the parser is opaque here.')

P('C17', 'Changing the settings invalidates what was loaded with the old ones',
  'After the search path, the charset or the use of fuzzy entries changes, the next lookup of a dictionary loads it afresh with the new settings; no dictionary loaded before is handed out again. After selecting another language the current dictionary is the one of the new language.',
  ['histories'], 'every sequence of operations on a manager',
  TESTS + 'Settings are never changed after a load.', [DM],
  [dict(name='clear_cache', where=DM), dict(name='current dictionary', where=DM + ' set_language, get_dictionary')],
  technique='abstract interpretation of every public operation on an arbitrary manager satisfying an invariant, and of the lookup after it; cache contents compared as map terms',
  note='Every operation, and by induction every history. The parser and the file system are opaque.')

P('C18', 'A dictionary stays valid until the settings change, and is freed once',
  'A dictionary handed out by a manager stays where it is until the manager is destroyed or its settings change; loading or looking up further languages and listing languages do not free or move it. Every dictionary the manager makes is deleted exactly once, also when loading fails half way, and no dangling one is ever handed out.',
  ['histories', 'fault_sequences'], 'every sequence of operations, with failing loads in between',
  TESTS + 'Leaks and dangling references need a specific sequence.', [DM],
  [dict(name='ownership of the cached dictionaries', where=DM)],
  technique='ownership analysis by abstract interpretation: what is allocated, kept, deleted and handed out on every path of every operation, destructor included',
  note='Every operation from an arbitrary state that satisfies the invariant (each kept dictionary is owned once), which every operation is shown to restore; failing loads included.')

P('C19', 'A file system failure is reported and contained',
  'When a directory cannot be listed or a file cannot be opened or read, asking for a dictionary or for the list of languages neither throws nor stops: the failure is reported through the error callback and the other directories are processed as usual. This also holds when the file system object throws or returns no stream.',
  ['fault_sequences'], 'every failing call, in every combination',
  TESTS + 'No test has a failing file system.', [DM, FS],
  [dict(name='list_directory, try block around open and parse', where=DM)],
  technique='abstract interpretation with every file system call also failing (exception, no stream, bad stream); exceptions that leave, failures without message, and loops left early are violations',
  note="Every path with every combination of failures. Exceptions of the failing call are std::exception; those of other types are the caller's.")

P('C20', 'The listed languages are those that can be loaded',
  'The list of languages contains exactly the known languages for which a directory of the search path has a .po file: each file name is mapped to a language in the same way as when a dictionary is loaded. Files that are not .po files and unknown languages are not listed.',
  ['inputs', 'configurations'], 'every set of file names',
  TESTS + 'The list is printed but not checked.', [DM],
  [dict(name='get_languages and get_dictionary', where=DM)],
  technique='abstract interpretation of get_languages; inductive step of the loops over directories and files; the mapping from names to languages compared with that of get_dictionary as terms',
  note='Any number of directories and files; the mapping itself is uninterpreted (C33, C34, C37).')

P('C21', 'Of the files in a directory the best match is loaded',
  'When loading a dictionary, each directory of the search path contributes the one .po file whose language matches the requested one best, a file of another language never, and a directory without a match contributes nothing. The file is opened under the name of its directory, a slash and its own name.',
  ['inputs', 'configurations'], 'every set and order of file names',
  TESTS + 'The directory has no competing files.', [DM],
  [dict(name='best score search', where=DM + ' get_dictionary')],
  technique='abstract interpretation of get_dictionary; inductive step of the search for the best score',
  note='Any number and order of files; the score is uninterpreted (C24), ties may go either way.')

P('C22', 'Files are only accessed through the file system object',
  'The manager and the parser reach directories and files only through the file system object given to the manager; nothing else in the library opens, lists or changes files or reads the environment. Only the Unix implementation of that object touches the real file system, and it does not change it.',
  ['programs', 'configurations'], 'every path through the library',
  TESTS + 'A stray access is not visible in an exit status.', [DM, PO, FS],
  [dict(name='FileSystem interface', where=H + 'file_system.hpp')],
  technique='inventory of the library functions the sources mention, with a call-graph confinement rule; abstract interpretation of the Unix file system object',
  note='Every mention in every function; library functions not known to be harmless or to touch the world are reported as undecided. What user supplied FileSystem objects do is theirs.')

P('C23', 'The settings reach the dictionaries and the parser',
  'Every dictionary the manager creates converts to the charset given to the manager, and every file is parsed with the manager\'s setting for fuzzy entries at that time. A parsed .po file writes to the dictionary of the requested language only.',
  ['histories', 'configurations'], 'every setting at the time of the load',
  TESTS + 'Only default settings are used.', [DM],
  [dict(name='arguments of Dictionary and POParser::parse', where=DM)],
  technique='abstract interpretation of setter or constructor followed by a load; arguments of the parser and answers of the dictionary compared as terms',
  note='Every path, arbitrary settings; no other operation changes what the setters set.')

P('C24', 'Match scores rank candidate languages consistently',
  'The score of two languages is 0 exactly when their language codes differ, and otherwise depends only on whether the countries and the modifiers agree, are missing on one side, or differ. For country and modifier alike, agreement scores higher than a missing part and that higher than a difference; the country weighs more than the modifier; an exact match scores highest of all, and the order of the arguments does not matter.',
  ['inputs'], 'every pair of languages',
  TESTS + 'The nine cases are not compared with each other.', [LA],
  [dict(name='score table', where=LA + ' match')],
  technique='abstract interpretation of the score, refined to the classes of two arbitrary languages; the constants compared with the order',
  note='All pairs of languages, by classes of agreement of code, country and modifier.')

P('C25', 'The language table is consistent',
  'No two entries of the language table have the same language, country and modifier, every entry has a name, every language with countries or modifiers also has an entry without them, and its codes contain none of the separators of locale strings. Every alias leads to a language of the table that has that name, and to a country the table has for it. So every known language can be found by its own code.',
  ['inputs'], 'every row of the tables',
  TESTS + 'A handful of the 241 rows is used.', [LA],
  [dict(name='languages[], create_language_aliases', where=LA)],
  technique='constant propagation into the tables, and rules over their rows',
  note='Every row and every alias. Whether the names are right is not decided.')

P('C26', 'An undefined language answers every query harmlessly',
  'A default-constructed or unknown language is false, equal only to another undefined language, and yields an empty text for its code, country, modifier, names and string form. A language without country, modifier or localized name yields an empty country or modifier and its English name.',
  ['inputs'], 'every language object, defined or not',
  TESTS + 'Undefined languages are hardly queried.', [LA],
  [dict(name='null tests', where=LA)],
  technique='abstract interpretation of the queries of an undefined and an arbitrary language; answers compared as terms',
  note='Every query of the public interface, every language.')

P('C27', 'Equality, ordering and hash of languages agree',
  'Two languages are equal exactly when they denote the same entry, unequal exactly when not equal; equal languages have equal hashes and neither is less than the other, and of two different ones exactly one is less. So languages work as keys of maps and sets.',
  ['inputs'], 'every pair of languages',
  TESTS + 'Relations over pairs are not tested.', [LA, H + 'language.hpp'],
  [dict(name='operator==, !=, <, Language_hash', where=H + 'language.hpp')],
  technique='abstract interpretation of the relations; the formulas evaluated for every relation two rows can have',
  note='Pointers are taken as an arbitrary total order; that different rows differ in content is C25.')

P('C28', 'Fallback chains end',
  'A dictionary of a language with a country falls back to the dictionary of the same language without country, one of a language without country has no fallback from the manager, and so lookups through fallbacks always end. Loading a dictionary never recurses without end.',
  ['inputs', 'histories'], 'every language of the table',
  TESTS + 'One language with country at most.', [DM],
  [dict(name='addFallback', where=DM + ' get_dictionary')],
  technique='abstract interpretation of get_dictionary with recursion kept opaque, of the search behind from_spec (inductive step), and constant propagation of scores and table',
  note="Every language of the table and every path. addFallback by the user can still make a cycle; that is the user's.")

P('C29', 'Conversion descriptors are used only while open and closed once',
  'Every conversion descriptor that is opened is closed exactly once, no later than the converter is destroyed or set to other charsets, on all paths including failing ones; a descriptor that could not be opened or is closed already is never used or closed. When the charsets are the same no descriptor is needed and text is passed through unchanged.',
  ['histories', 'fault_sequences'], 'every sequence of set and convert operations with failing opens',
  TESTS + 'One conversion per run at most.', [IC],
  [dict(name='cd', where=IC)],
  technique='typestate of descriptors through abstract interpretation of every operation of the converter from every state of the object',
  note='Inductive invariant over the object (no descriptor, or one open one), every operation from both, opening fails with each reason.')

P('C30', 'A conversion is complete or reported',
  'Converting a text returns all converted output however large it gets, beginning and ending in the initial shift state of the target charset and independent of earlier conversions; the buffer is never written beyond its end. An invalid sequence is reported through the error callback and ends the conversion without aborting the program.',
  ['inputs', 'fault_sequences'], 'every text, every sequence of results of the converter',
  TESTS + 'No stateful charset and no invalid text is converted.', [IC],
  [dict(name='conversion loop', where=IC + ' convert')],
  technique='typestate of the shift state and of buffer positions through abstract interpretation of the conversion loop with linear relations between positions, room and sizes',
  note='Every outcome of iconv(3) at every call; loops are summarised by linear invariants, not unrolled.')

P('C31', 'Diagnostics go to the callbacks only',
  'Every message of the library goes through the callback of its severity, and to nothing when that callback is unset; nothing is written to standard output or standard error, except by the default callback. An unset callback never makes an operation fail.',
  ['inputs', 'configurations'], 'every operation, every setting of the three callbacks',
  TESTS + 'Output is not looked at.', [LO, PO, DM],
  [dict(name='log macros', where=H + 'log_stream.hpp'), dict(name='Log', where=LO)],
  technique='inventory of output in the syntax tree with a call-graph rule; abstract interpretation of setters and of every function that reports, one function at a time',
  note='Every function that reports, with each callback set or not, other functions replaced by arbitrary effects.')

P('C32', 'No hidden shared state',
  'The only state shared between objects of the library are the log callbacks and the strictness flag of the parser, which change only when the user sets them; everything else with static lifetime is constant after its thread-safe initialisation. So separate objects may be used from separate threads.',
  ['schedules'], 'every interleaving of operations on separate objects',
  TESTS + 'Single-threaded.', [LA, PF, LO, PO],
  [dict(name='constant tables, function-local statics', where=LA + ', ' + PF)],
  technique='inventory of objects with static lifetime and classification of every use',
  note='Every object with static lifetime and every mention of it. Thread-safety inside the C and C++ library (stream formatting, std::cerr) is not decided.')

P('C33', 'File names map to locale names',
  'The locale name of a .po file is the file name without its ".po" ending, with the letters behind the first underscore in upper case up to the first non-letter, and everything else unchanged, so that zh_tw.po and zh_TW.po denote the same language. Names of any length and without ending are accepted.',
  ['inputs'], 'every file name',
  TESTS + 'A few regular names.', [DM],
  [dict(name='convertFilename2Language', where=DM)],
  technique='abstract interpretation of the name mapping; simulation of its loop by a three-state automaton, checked for every value of the loop flags, state and character class',
  note='Names of any length; character classes and letters as in the C locale.')

P('C34', 'Locale strings are split at their separators',
  'A locale string LANGUAGE_COUNTRY.CODESET@MODIFIER is split at the first @, the first dot before it and the first underscore before both: the language is everything before the first separator, the country reaches from behind the underscore to the next separator, and the modifier is everything behind the @; missing or empty parts are empty. The codeset never becomes part of language, country or modifier, whatever characters it contains.',
  ['inputs'], 'every string, in each of the 16 arrangements of first separators',
  TESTS + 'A few regular names.', [LA],
  [dict(name='from_env', where=LA)],
  technique='abstract interpretation of from_env over symbolic text, one case per arrangement of the first separators; the arguments of from_spec compared as terms with the parts by the grammar',
  note='Texts of any length; what from_spec answers is C28/C37. A call-graph of helpers is followed; a splitter written as a loop over single characters would be answered by undecided.')

P('C35', 'Converted text has the meaning of the original text',
  'Character by character, a converted translation denotes the same characters as the text in the file.',
  ['inputs'], 'every text and pair of charsets', TESTS, [IC], [dict(name='iconv', where=IC)])

P('C36', 'Well-formed files are read as GNU msgfmt reads them',
  'For every .po file that msgfmt accepts, the dictionary answers every lookup as gettext would with the compiled catalogue.',
  ['inputs'], 'every well-formed .po file', TESTS, [PO, DI], [dict(name='parser', where=PO)])

P('C37', 'A locale resolves to the best matching known language',
  'Looking up a language, country and modifier answers the entry of the language table with exactly that language code whose country and modifier match best, whatever the order of the table; an unknown language code yields an undefined language. Every entry of the table takes part.',
  ['inputs'], 'every language, country and modifier, every row of the table',
  TESTS + 'A handful of the 241 rows is used, and only whether a language is found.', [LA],
  [dict(name='search for the best row', where=LA + ' from_spec'), dict(name='index of the table', where=LA + ' create_language_map')],
  technique='abstract interpretation of from_spec on arbitrary texts and of the construction of its index; inductive steps of both loops',
  note='Any table, any texts; the score is uninterpreted (C24), ties may go either way.')

NOT_APPLICABLE = {
    'C35': 'Quantifies over the values that the external iconv library computes at run time; no property of this source decides them. The parts that are in the source (exactly one conversion, complete output, descriptor use) are C05, C29 and C30.',
    'C36': 'Equivalence of the complete input/output behaviour with another program is a relation between run-time values that no sound static argument in reach can bound; the structural parts are claimed as C03 to C13.',
}
