#!/usr/bin/env python3
# Writes properties.jsonl (one source for ids/titles/statements).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
PO="src/po_parser.cpp"; DI="src/dictionary.cpp"; DM="src/dictionary_manager.cpp"; LA="src/language.cpp"; PL="src/plural_forms.cpp"; IC="src/iconv.cpp"; LO="src/log.cpp"; UF="src/unix_file_system.cpp"
T4="The four existing tests only check the exit status of one lookup in two fixed .po files; "

p("C01","A loaded catalogue holds exactly the file's translated messages",
 "After parsing any well-formed .po file, looking up each translated message (by optional context and msgid) returns exactly the msgstr text written for it, and enumerating the dictionary yields exactly the translated messages of the file: none lost, none invented, none attached to another message. This holds regardless of comments, string continuation layout, surrounding whitespace, CRLF line ends, a UTF-8 byte order mark, or whether the last line ends in a newline.",
 ["inputs"],"all well-formed .po files (any number, order and mix of plain, context and plural entries and layouts)",
 T4+"no test compares the dictionary content with the file, and the file space is unbounded.",
 [PO,DI],[("POParser::parse entry loop",PO),("POParser::get_string",PO),("Dictionary::add_translation",DI)],
 [("current_line/eof","parser position",PO),("entries, ctxt_entries","loaded messages","include/tinygettext/dictionary.hpp")],["Dictionary::translate*","Dictionary::foreach","Dictionary::foreach_ctxt"])
p("C02","String literals decode to the text that was escaped",
 "A PO string literal decodes to exactly the text it denotes: adjacent literals are concatenated, the escapes \\a \\b \\v \\n \\t \\r \\\" \\\\ yield their control character, quote or backslash, every other byte stands for itself, and an unknown escape is kept verbatim (backslash included) with a warning. Escaping any text and decoding it again gives the same text, and a literal that is not closed on its line, or not started by a quote, rejects its entry.",
 ["inputs"],"every byte string without newline as literal content, in every position (msgctxt, msgid, msgid_plural, msgstr, msgstr[N]) and every split into adjacent literals",
 T4+"no test contains an escape whose result is checked; escapes interact with quotes, line ends and continuations.",
 [PO],[("POParser::get_string_line",PO),("POParser::get_string",PO)],[],["Dictionary::translate","Dictionary::foreach","warning/error log callbacks"])
p("C03","A malformed entry is contained: it never damages other entries",
 "A syntactically malformed entry adds nothing to the dictionary, and every well-formed entry that is separated from it by an empty line (a plain comment line counts as one), before or after, is loaded exactly as if the malformed entry were absent. The same holds for any number of malformed entries in any position.",
 ["inputs"],"all files mixing well-formed entries with arbitrary malformed line sequences separated by empty lines",
 "test/broken.po is not run by any test and nothing checks what survives it; the error positions (each grammar state, each line kind, end of file) multiply.",
 [PO],[("POParser::error recovery loop",PO),("POParserError catch in parse()",PO),("is_empty_line",PO)],[("eof, current_line","recovery position",PO)],["Dictionary::foreach","Dictionary::foreach_ctxt"])
p("C04","Parsing terminates safely for every byte sequence, truncated anywhere",
 "For every input byte sequence, including a valid file cut off after any byte or a stream that fails while being read, parsing terminates without crash, hang or unbounded memory. A missing final newline makes no difference to the result, and cutting a file never changes the translations of entries that were complete, with their terminating empty line, before the cut.",
 ["inputs","crash_points"],"all byte strings; every truncation point of every file; every read-failure point",
 T4+"no test uses a truncated, newline-less or binary file.",
 [PO],[("POParser::next_line at end of input",PO),("get_string continuation loop",PO),("comment loop in parse()",PO),("recovery loop in error()",PO)],[("eof","end of input seen",PO)],["process termination","Dictionary::foreach"])
p("C05","Parser diagnostics name exactly the offending places",
 "Every rejected entry is reported once through the error callback, and every tolerated irregularity (unknown escape, text after a literal, odd spacing when pedantic, missing or mismatching plural or charset declarations, colliding definitions) through the warning callback, each message about the text prefixed with the given file name and the line number where it was found (reports about colliding definitions and failed conversions carry no position). A file without such irregularities produces no error and no warning.",
 ["inputs","configurations"],"all files, both settings of the pedantic flag",
 "No test inspects the log output.",
 [PO,DI],[("POParser::warning / POParser::error",PO),("line_number in next_line",PO)],[("line_number","1-based line of current_line",PO)],["Log callbacks"])
p("C06","Untranslated and fuzzy entries are treated as gettext does",
 "An entry whose translation is empty contributes no translation, and looking up any message never yields an empty text in place of an untranslated message. An entry flagged fuzzy is used exactly when fuzzy use is enabled on the manager (the default), the flag affects only the entry it precedes, and a fuzzy header is still honoured.",
 ["inputs","configurations"],"all files with any placement of fuzzy flags and empty singular/plural/context translations; both settings of fuzzy use",
 T4+"no test sets the fuzzy option or looks up a fuzzy or empty entry.",
 [PO,DM,DI],[("fuzzy flag scan in parse()",PO),("use_fuzzy plumbing",DM),("saw_nonempty_msgstr",PO),("Dictionary::translate",DI)],[("use_fuzzy","manager option","include/tinygettext/dictionary_manager.hpp")],["DictionaryManager::set_use_fuzzy + translate"])
p("C07","The header entry governs its file",
 "The charset and plural rule declared in a file's header (newline-terminated Content-Type and Plural-Forms fields in any order, case-insensitive charset name) apply to that file's entries; with no charset, or the placeholder CHARSET, UTF-8 is assumed. The first plural rule given to a dictionary stays in force, a later different or unknown one is only reported, and only an entry with empty msgid and no context is a header.",
 ["inputs","histories"],"all header texts and all sequences of files parsed into one dictionary",
 T4+"their files have ordinary UTF-8 headers and no result depends on a header field.",
 [PO,PL],[("POParser::parse_header",PO),("PluralForms::from_string",PL)],[("conv, big5","file charset state",PO),("plural_forms","rule of the dictionary","include/tinygettext/dictionary.hpp")],["Dictionary::translate_plural","Dictionary::get_plural_forms","Dictionary::translate"])
p("C08","Translations are delivered in the dictionary charset, whatever the order",
 "Every translation is the file's text converted from the file's declared charset to the dictionary's charset, complete and self-contained: the result for a text depends only on that text and the two charsets, never on what was converted before. Text that is invalid in, or not representable from, the declared charset yields its convertible prefix and an error report, and an unsupported charset is reported as an exception instead of producing wrong text.",
 ["inputs","histories","configurations"],"all texts, charset pairs (single-byte, multi-byte, stateful, byte-order-marked) and sequences of conversions on one converter",
 T4+"their files are UTF-8 read into a UTF-8 dictionary, so no conversion takes place.",
 [IC,PO],[("IConv::convert",IC),("IConv::set_charsets",IC)],[("cd","conversion descriptor incl. shift state","include/tinygettext/iconv.hpp")],["IConv::convert","Dictionary::translate"])
p("C09","Big5 trail bytes are never mistaken for syntax",
 "In a file declared as Big5, a two-byte character whose second byte equals a backslash (or any other ASCII byte) is taken as text, in every literal after the header and at every position in it, while real escapes and quotes keep their meaning. A lone lead byte at the end of a literal rejects the entry instead of reading past the line.",
 ["inputs"],"all sequences of Big5 characters, ASCII and escapes in literals of Big5 files",
 "TODO says 'POParser can handle Big5, but needs testing'; no test uses it.",
 [PO],[("big5 branch of get_string_line",PO),("parse_header sets big5",PO)],[("big5","file is Big5",PO)],["Dictionary::translate (Big5 and UTF-8 dictionaries)"])
p("C10","Each recognised plural rule computes what its header says",
 "For every Plural-Forms header that is recognised, the number of forms is the declared nplurals and the form chosen for every count is the value of the declared C expression, always below the number of forms. Recognition does not depend on whitespace, the supported rules stay recognised, and a header that is not recognised is undefined rather than a different rule. Two rules are equal exactly when they are the same rule: rules that differ in the number of forms or in what they select are unequal.",
 ["inputs"],"all supported headers, all counts 0..2^31-1 (and in-range index for negative ones), all whitespace variants and near-miss headers",
 T4+"no test translates a plural; 25 rules times 2^31 counts.",
 [PL],[("plural function table",PL),("whitespace stripping in from_string",PL)],[],["PluralForms::from_string","get_nplural","get_plural"])
p("C11","Plural lookup picks the rule's form, else the English one",
 "Translating a plural message for a count returns the stored text of the form that the dictionary's rule selects for that count; when the message, that form, or its text is missing, the result is the singular msgid for count 1 and the plural msgid otherwise. Without a plural rule form 0 is used. This holds for rules the program itself supplies, too, also when they name forms that do not exist.",
 ["inputs","histories"],"all dictionaries, rules, messages and counts",
 T4+"translate_plural is not exercised.",
 [DI],[("Dictionary::translate_plural",DI),("Dictionary::translate_ctxt_plural",DI)],[("entries","msgstr vectors","include/tinygettext/dictionary.hpp"),("plural_forms","rule","include/tinygettext/dictionary.hpp")],["Dictionary::translate_plural","Dictionary::translate_ctxt_plural"])
p("C12","Message contexts are strictly separated",
 "A message in a context is answered only by a translation given for that same context (an empty context is a context and differs from none), and a message without context only by one given without; otherwise the original text is returned. This also holds through fallback dictionaries, for singular and plural, whatever else was loaded.",
 ["inputs","histories"],"all sets of entries sharing msgids across contexts, all lookups, with and without fallback",
 "No test looks up a context message.",
 [DI,PO],[("Dictionary::translate_ctxt",DI),("Dictionary::translate_ctxt_plural",DI),("has_msgctxt",PO)],[("ctxt_entries","context -> entries","include/tinygettext/dictionary.hpp")],["Dictionary::translate_ctxt","Dictionary::translate_ctxt_plural","foreach_ctxt"])
p("C13","Dictionary updates: the latest definition wins, collisions are reported",
 "After any sequence of additions a message has the translation given last (a plural definition replaces all forms, a singular one sets form 0), other messages are unaffected, and a warning is emitted exactly when an addition changes an existing translation. Enumeration visits every message exactly once with its current texts.",
 ["histories"],"all sequences of the four kinds of addition over shared message ids",
 "No test adds a translation twice or enumerates.",
 [DI],[("Dictionary::add_translation (4 overloads)",DI),("foreach/foreach_ctxt","include/tinygettext/dictionary.hpp")],[("entries, ctxt_entries","messages","include/tinygettext/dictionary.hpp")],["Dictionary::foreach","foreach_ctxt","translate","warning callback"])
p("C14","A country dictionary falls back to its base language",
 "For a language with a country, every message (plain, plural, context) that its own catalogues leave untranslated is answered as the dictionary of the bare language would answer it, using that dictionary's plural rule, and a message its own catalogues translate is never overridden. If neither translates it the original text is returned, and fallback always terminates.",
 ["inputs","configurations"],"all pairs of catalogues for a country language and its base language; all messages; all languages with a country",
 T4+"the de_DE test only sees one singular message present in the best matching file.",
 [DM,DI],[("addFallback in get_dictionary",DM),("m_fallback use in Dictionary::translate*",DI)],[("m_fallback","fallback dictionary","include/tinygettext/dictionary.hpp")],["DictionaryManager::get_dictionary(...).translate*"])
p("C15","A language request resolves to the best known language",
 "Asking for language, country and modifier yields an undefined language exactly when the language code is unknown, and otherwise the known language with that code that matches best, country weighing more than modifier and the first listed winning ties. Every known language is reached by its own str() form, and its code, country, modifier, name and localized name (name if there is none) are those of the language table.",
 ["inputs"],"all language/country/modifier triples; all table rows",
 "Tests resolve only 'deutsch', 'Deutsch' and 'de'.",
 [LA],[("Language::from_spec",LA),("languages table",LA)],[("languages[]","known languages",LA)],["Language::from_spec","Language::str and getters"])
p("C16","Locale strings and language names parse as documented",
 "A string LANGUAGE_COUNTRY.CODESET@MODIFIER, any part after the language optional, resolves as its language, country and modifier do, independent of the codeset whatever characters it contains. A language name from the alias list resolves to its locale whatever its letter case, any other name as a locale string, and no string (without NUL bytes) makes resolution fail other than by an undefined language.",
 ["inputs"],"all strings, all splits by '_', '.', '@', all aliases in all letter cases",
 "Tests use three names, none with a codeset or modifier.",
 [LA],[("Language::from_env",LA),("resolve_language_alias",LA)],[],["Language::from_env","Language::from_name"])
p("C17","Language match scores order candidates consistently",
 "The match score is 0 exactly for different language codes, otherwise 1 to 9; it is symmetric, maximal (9) exactly when country and modifier agree, prefers agreeing country over unspecified over different country, and within the same country relation agreeing modifier over unspecified over different modifier: 9, 8, 5 for the same country, 7, 6, 3 when one names none, 4, 2, 1 for different ones, with the modifier agreeing, unspecified in one, or different.",
 ["inputs"],"all pairs of known languages",
 "No test calls match directly; 241x241 pairs.",
 [LA],[("Language::match",LA)],[],["Language::match","operator==/!=/<"])
p("C18","In each directory the best matching catalogue is loaded, and only that",
 "For a requested language each search directory contributes exactly the .po file whose name denotes the best matching language (first in listing order among equals), and nothing if no .po file of that language exists there. Files that are not .po files or whose name denotes no known language never contribute, and file-name country codes match in any letter case.",
 ["inputs","configurations"],"all directory listings (names, orders, irrelevant files) and all requested languages",
 T4+"the directory has three .po files.",
 [DM,LA],[("best_score loop in get_dictionary",DM),("has_suffix",DM),("convertFilename2Language",DM)],[],["DictionaryManager::get_dictionary","FileSystem::open_file calls"])
p("C19","Search path order decides which directory's translation wins",
 "With several search directories, every message translated in any of them is available, and a message translated in more than one has the translation of the directory with the highest precedence: earlier added directories before later ones, a directory added with precedence before all present ones, removed ones not at all, repeated additions ignored.",
 ["histories","configurations"],"all sequences of add/remove with either precedence and all overlapping catalogues",
 "Tests use a single directory.",
 [DM],[("search_path reverse iteration",DM),("add_directory/remove_directory",DM)],[("search_path","ordered directories","include/tinygettext/dictionary_manager.hpp")],["DictionaryManager::get_dictionary(...).translate"])
p("C20","The manager's answers depend on its settings, not on its history",
 "At any time the dictionary obtained for a language answers as one obtained from a fresh manager with the same search path, charset and fuzzy setting, and the current dictionary is that of the current language (an empty one if none is set). No sequence of lookups, language switches (also from within a callback), directory, charset or fuzzy changes, nor a failed load in between, makes a difference; with unchanged settings the same dictionary object is returned.",
 ["histories","fault_sequences"],"all sequences of manager operations, with loads failing at any point",
 "Each test does one lookup with a fresh manager.",
 [DM],[("dictionaries cache, clear_cache",DM),("current_dict / set_language",DM)],[("dictionaries","cache","include/tinygettext/dictionary_manager.hpp"),("current_dict","cached current","include/tinygettext/dictionary_manager.hpp")],["DictionaryManager public API"])
p("C21","Listed languages are exactly the loadable ones",
 "The reported set of available languages contains exactly the known languages denoted by the .po file names in the current search path, under the same file-name rules that loading uses; requesting any of them loads that file or one that matches it equally well. Files that denote no known language are left out, and listing does not disturb the loaded dictionaries.",
 ["inputs","configurations","histories"],"all directory contents and search paths",
 "No test lists languages (the command exists in the test program but is not run).",
 [DM],[("DictionaryManager::get_languages",DM)],[],["DictionaryManager::get_languages"])
p("C22","A file or directory that cannot be used is contained and reported",
 "If opening, reading or parsing one catalogue fails, the failure is reported as an error and all other catalogues are loaded as usual. If listing a directory fails the caller gets the file system's exception, nothing half-loaded is kept, and the next request after recovery gives the complete dictionary.",
 ["fault_sequences","inputs"],"all placements of open failures, null streams, failing streams, parse exceptions and listing failures over directories, files and retries",
 "No test has a failing file or directory.",
 [DM,UF,PO],[("try/catch around parse in get_dictionary",DM),("cache insertion in get_dictionary",DM)],[("dictionaries","cache","include/tinygettext/dictionary_manager.hpp")],["DictionaryManager::get_dictionary with a faulty FileSystem"])
p("C23","File names map to locale names for every string",
 "Converting a file name to a locale name removes a trailing .po, upper-cases the letters directly following the first underscore and leaves every other character alone. It is defined for every string, however short, and applying it again to a result that does not end in .po changes nothing more.",
 ["inputs"],"all strings",
 "Tests see three file names.",
 [DM],[("DictionaryManager::convertFilename2Language",DM)],[],["DictionaryManager::convertFilename2Language"])
p("C24","Each message reaches exactly the callback of its severity",
 "Every library message is delivered, once and complete, to the callback set for its severity at that moment, and to no other; replacing a callback takes effect at once, and an unset (null) callback silences its severity without changing any result. Lookups of unknown messages are reported as info.",
 ["histories","configurations"],"all sequences of callback changes interleaved with operations that report at each severity",
 "No test sets a log callback in the run tests.",
 [LO,DI],[("log_* macros","include/tinygettext/log_stream.hpp"),("Log::~Log",LO)],[("log_*_callback","current sinks",LO)],["callbacks"])
p("C25","Independent objects can be used from concurrent threads",
 "Threads that each work on their own managers, dictionaries and parsers get, under every interleaving, the results they would get alone, from the very first call in the process on.",
 ["schedules"],"all interleavings of first and later calls of language, plural-rule and catalogue operations on separate objects",
 "All tests are single-threaded.",
 [LA,PL],[("lazily built language_map, language_aliases, plural_forms tables","src/language.cpp, src/plural_forms.cpp")],[("static lookup tables","shared, lazily initialised","src/language.cpp, src/plural_forms.cpp")],["results per thread"])
p("C26","The Unix file system backend shows exactly the real directory",
 "Listing a directory returns the name of every entry in it exactly once and nothing else, opening a file yields exactly its bytes, and a missing directory is an exception; so a manager on a real directory answers like one on an equal in-memory file system.",
 ["inputs","configurations"],"all directory contents (names, sizes, bytes, sub-directories, dangling links)",
 T4+"only three fixed files.",
 [UF,DM],[("UnixFileSystem::open_directory/open_file",UF)],[],["UnixFileSystem","DictionaryManager on a scratch directory"])
p("C27","Everything acquired is given back",
 "Every conversion descriptor, file stream, directory handle and byte of memory the library acquires for a call or an object is released again: streams and handles when the loading call returns, the rest at the latest when the object is destroyed, also when a conversion is refused, a stream, listing or parse fails or an exception passes through. So repeating a history of operations any number of times makes nothing grow.",
 ["histories","fault_sequences"],"all histories of operations and faults, repeated",
 "Tests run once and do not count anything.",
 [IC,DM,UF,PO],[("IConv::set_charsets, ~IConv",IC),("stream ownership in get_dictionary",DM),("open_directory",UF),("clear_cache, ~DictionaryManager",DM)],[("cd","conversion descriptor","include/tinygettext/iconv.hpp"),("dictionaries","owned dictionaries","include/tinygettext/dictionary_manager.hpp")],["process heap, file descriptors, live streams, iconv_open/iconv_close calls"])
p("C28","A dictionary obtained from a manager stays valid and itself",
 "A reference obtained from get_dictionary stays valid, and denotes the dictionary the manager gives for that language, until the search path, the charset or the fuzzy setting of that manager changes or the manager is destroyed. Other requests, language switches, listings, failed loads and other managers neither invalidate nor change it, and what the user adds to it is seen by every later lookup through the manager, including through fallback.",
 ["histories"],"all histories of requests, switches, failures and user additions while references are kept",
 "Tests use a dictionary right after obtaining it.",
 [DM,DI],[("get_dictionary",DM),("set_language",DM),("get_dictionary(lang) cache insert",DM)],[("dictionaries","cache owning the objects","include/tinygettext/dictionary_manager.hpp"),("m_fallback","pointer between them","include/tinygettext/dictionary.hpp")],["kept Dictionary& references"])
p("C29","Results do not depend on the process's locale",
 "What the library does is decided by its inputs alone: under every locale the process has set (setlocale, or the global C++ locale), and however it changes in between, catalogues are read, charset and file names recognised, languages resolved, texts converted and looked up, and messages (their line numbers included) reported exactly as under the C locale.",
 ["inputs","configurations","histories"],"all calls of the public API under every combination of C locales (also those with one byte per character, with other letters and cases) and C++ locales (also those grouping digits) at the time of the call and before",
 T4+"all of them run under the C locale, although programs that use a translation library are exactly those that call setlocale(LC_ALL, \"\").",
 [PO,IC,DM,LA,LO],[("POParser::parse_header",PO),("IConv::set_charsets",IC),("DictionaryManager::convertFilename2Language",DM),("resolve_language_alias",LA),("Log::Log",LO)],[],["all public calls","log callbacks"])
p("C30","The library may be used from within its own callbacks",
 "While the library calls back (a log callback, a FileSystem listing or opening or reading a file for it, a foreach visitor), the callback may itself use the library: parse, convert, look up and add on other objects, and look up in and ask the same manager for dictionaries. Such inner calls give what they give alone, and the outer call and everything after it is as if they had not been made. Asked for the dictionary that is being loaded, the manager gives that dictionary, as far as it is loaded.",
 ["schedules","histories"],"all outer calls, callback points and inner calls (nested one deep)",
 T4+"no test installs a callback.",
 [DM,PO,IC,DI,LO],[("DictionaryManager::get_dictionary",DM),("Log::~Log",LO),("Dictionary::foreach","include/tinygettext/dictionary.hpp"),("POParser::parse",PO)],
 [("dictionaries","dictionaries loaded or being loaded",DM)],["log callbacks","FileSystem methods","Dictionary::foreach","DictionaryManager::get_dictionary"])
p("C31","The file system is asked only when needed, and for the right files only",
 "A manager reads a language's catalogues when that language is first requested and not before (adding, removing or listing directories, choosing a language and changing settings open no file), opens per directory of its path only the one best matching file, each exactly once, and does not read it again until the search path, charset or fuzzy setting changes. A request answered from what is loaded asks the file system nothing; a directory is listed at most once per search.",
 ["histories","configurations","fault_sequences"],"all histories of settings, requests and listings over all file systems, with unreadable and failing files and directories",
 T4+"no test observes what is opened.",
 [DM],[("get_dictionary",DM),("get_dictionary(language) search",DM),("add_directory, set_language, get_languages",DM)],[("dictionaries","what is loaded",DM),("search_path","directories",DM)],["FileSystem::open_directory","FileSystem::open_file"])
p("C32","Objects do not influence each other",
 "What is done with one dictionary, manager, parser, converter or rule has no effect on any other that it was not given: two jobs on objects of their own give, in every interleaving, exactly what each gives alone (texts, languages, charsets, settings, rules, messages logged and exceptions).",
 ["schedules","histories"],"all pairs of jobs on separate objects and all interleavings of their calls",
 T4+"each test runs one job in one process.",
 [PO,DI,DM,IC,PL,LA],[("POParser members (use_fuzzy, big5, conv)",PO),("IConv::cd",IC),("DictionaryManager members",DM),("Dictionary members",DI)],[("static data","whatever outlives one object","src/*.cpp")],["all public calls"])
p("C33","A catalogue means the same from any stream",
 "Parsing takes exactly the bytes the stream gives from where it stands to its end: whether it is a memory, file, unbuffered, byte-wise or read-write stream, positioned at the start or within, seekable or not, whatever its formatting flags, and whether it reports errors by a state or by an exception, the same bytes give the same messages, rule, warnings and errors. A stream that has failed or ended before gives nothing.",
 ["inputs","configurations"],"all kinds of std::istream and all contents, whole or cut at any byte",
 T4+"all use one std::ifstream.",
 [PO],[("POParser::parse, next_line",PO),("byte order mark check",PO)],[("in","the stream",PO)],["POParser::parse(name, stream, dictionary)"])
p("C34","Enumeration shows every message exactly once, unchanged",
 "foreach visits every message without a context, and foreach_ctxt every message with one (also with the empty context or the empty msgid), exactly once, with its forms in order as lookups give them. The visitor is called in place, as the object the caller passed or a copy that is returned, an exception from it ends the enumeration and passes through, and the dictionary, also when looked up in during the enumeration, is the same afterwards, so that enumerating again shows the same.",
 ["histories","inputs"],"all dictionaries reached by parsing and additions, and all visitors (stopping anywhere, looking up meanwhile)",
 T4+"no test compares an enumeration with anything.",
 ["include/tinygettext/dictionary.hpp",DI],[("Dictionary::foreach","include/tinygettext/dictionary.hpp"),("Dictionary::foreach_ctxt","include/tinygettext/dictionary.hpp")],[("entries, ctxt_entries","messages","include/tinygettext/dictionary.hpp")],["Dictionary::foreach","Dictionary::foreach_ctxt"])
p("C35","Languages are values that work as keys of containers",
 "Two languages, however they were made (by specification, environment string or name, copied or moved), are equal exactly when language, country and modifier are; != is the negation, < orders different languages strictly and totally, and equal languages hash alike: a set, a hash set or a list without duplicates made from the same languages all hold each exactly once, the undefined language included.",
 ["inputs"],"all pairs and lists of languages from all ways to make them",
 T4+"no test compares two languages.",
 [LA,"include/tinygettext/language.hpp"],[("Language::operator==, operator!=",LA),("operator<","include/tinygettext/language.hpp"),("Language_hash","include/tinygettext/language.hpp")],[("m_spec","row of the language table","include/tinygettext/language.hpp")],["operator==, !=, <","Language_hash","std::set, std::unordered_set"])
p("C36","Lookups report exactly what they cannot find",
 "A lookup answered by the dictionary itself reports nothing. Otherwise every dictionary of the chain of fallbacks that is asked in vain reports: as information if it does not have the message (for a singular lookup also if its text is empty), as an error if it has the message but too few forms for the number, and not at all if it has the form asked for but empty. The report names the message, goes where the program directed its severity at the time, and neither the result nor any dictionary depends on who listens.",
 ["inputs","histories","configurations"],"all dictionaries and chains, all lookups, all assignments of log callbacks",
 T4+"no test observes a report.",
 [DI,LO],[("Dictionary::translate",DI),("translate_plural",DI),("translate_ctxt, translate_ctxt_plural",DI)],[("entries, ctxt_entries","messages","include/tinygettext/dictionary.hpp"),("m_fallback","chain","include/tinygettext/dictionary.hpp"),("log callbacks","sinks",LO)],["log callbacks, std::cerr"])
p("C37","A dictionary may be read by several threads at once",
 "Once a dictionary is complete, any number of threads may ask it and its chain of fallbacks at the same time: every lookup and every evaluation of its plural rule gives in every thread, and under every schedule, what it gives when the thread is alone, nothing is lost from what is reported, there is no data race, and the dictionary afterwards is what it was before.",
 ["inputs","schedules"],"all dictionaries and chains, all sets of lookups, all numbers of threads, all schedules",
 T4+"no test uses a thread.",
 [DI,PL],[("Dictionary::translate and the other const lookups",DI),("PluralForms::get_plural",PL)],[("entries, ctxt_entries","shared messages","include/tinygettext/dictionary.hpp"),("m_fallback, m_has_fallback","chain","include/tinygettext/dictionary.hpp"),("plural_forms","rule","include/tinygettext/dictionary.hpp")],["const member functions of Dictionary from several threads"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
