"""What decides each property: models whose behaviours are replayed (direction A)
and generators whose recorded sessions the specification checks (direction B)."""


def M(model, consts, invs, **kw):
    return dict(model=model, consts=consts, invs=invs, **kw)


def G(gen, n, mask=None, exe=None, isolate=None, timeout=None, **kw):
    d = dict(gen=gen, n=n, kw=kw)
    for k, v in (("mask", mask), ("exe", exe), ("isolate", isolate), ("timeout", timeout)):
        if v is not None:
            d[k] = v
    return d


def PO(alpha, ent, ped=True, cut=False, dview=False, forms=1, buf=1, **kw):
    return M("PoGraph", 'AlphaName="%s" MaxEnt=%d MaxBuf=%d MaxForms=%d Ped=%s CutAll=%s DView=%s' % (alpha, ent, buf, forms, str(ped).upper(), str(cut).upper(), str(dview).upper()),
             "Incremental Shifted NoFinalNewline Contained NoEmptyAnswer Placed" + (" NoEmptyText" if alpha == "base" else ""), props="Reported Grows", view=True, constraint=True, **kw)


def cat(n, lay): return M("CatMC", "MaxEntries=%d LayoutKind=%d" % (n, lay), "RoundTrip Silent Out")
def lit(mode, n): return M("LitMC", 'Mode="%s" MaxLen=%d' % (mode, n), "ScanIsDenotation RoundTrip Out")
def block(n, bad): return M("BlockMC", "MaxBlocks=%d MaxBad=%d" % (n, bad), "OnlyGood OneReport Out")
def trunc(mode, n): return M("TruncMC", 'Mode="%s" MaxLen=%d' % (mode, n), "Terminates FinalNewline Out" + (" Prefix FailsLikeCut" if mode == "cut" else ""))
def fuzzy(n): return M("FuzzyMC", "MaxBlocks=%d" % n, "Rule HeaderCounts Out")
def hdr(n, form): return M("HdrMC", "MaxFields=%d Form=%d" % (n, form), "Governs Out")
def conv(n, sw): return M("ConvMC", "MaxTexts=%d Switch=%s" % (n, str(sw).upper()), "BackAndForth Out")
def big5(n, to): return M("Big5MC", 'MaxUnits=%d To="%s"' % (n, to), "Text Out")
def plural(mode, sweep): return M("PluralMC", 'Mode="%s" Sweep=%d' % (mode, sweep), "Sound Out" + (" Recognised" if mode == "spell" else ""))
def join(n, k): return M("JoinMC", "Seps={%s} MaxOps=%d" % (",".join(map(str, range(1, k + 1))), n), "Own Out")
def dic(alpha, n): return M("DictMC", 'Alpha="%s" MaxOps=%d' % (alpha, n), "Latest Answer Told Out")
def fb(mode): return M("FbMC", 'Mode="%s"' % mode, "FallsBack Told Out")
def told(n): return M("TellMC", "MaxOps=%d" % n, "Tells Out")
def lang(mode, wide): return M("LangMC", 'Mode="%s" Wide=%s' % (mode, str(wide).upper()), {"spec": "Best Out", "match": "Reached Scores Out", "keys": "Keys Out"}[mode])
def env(mode, n=4): return M("EnvMC", 'Mode="%s" MaxLen=%d' % (mode, n), {"parts": "AsParts CodesetFree Out", "names": "AnyCase Out", "files": "Mapped Out", "chars": "Out"}[mode])
def dirs(n, mode): return M("DirMC", 'MaxFiles=%d Mode="%s"' % (n, mode), "Chosen Offers Out")
def path(n, each, names="plain"): return M("PathMC", 'MaxOps=%d EachGet=%s Names="%s"' % (n, str(each).upper(), names), "Wins Out")
def mgr(deep): return M("MgrMC", "Deep=%s" % str(deep).upper(), "Fresh Linked", view=True)
def fault(pairs, again=False): return M("FaultMC", "Pairs=%s Again=%s" % (str(pairs).upper(), str(again).upper()), "Contained Told Out")
def hold(n): return M("HoldMC", "MaxOps=%d" % n, "Kept Out")
def res(n): return M("ResMC", "MaxOps=%d" % n, "Bounded Out")
def every(step): return M("AllMC", "Every=%d" % step, "Found Offered Backed Kin Out")
def loc(ks): return M("LocMC", "Locales={%s}" % ",".join(map(str, ks)), "Same Out")
def re_(pairs): return M("ReMC", "Pairs=%s" % str(pairs).upper(), "Alike Fresh Out")
def stream(every): return M("StreamMC", 'Mode="cut" MaxLen=0 Kinds={0,1,2,3,4,5,6,7,8,9,10,11,12,13} Every=%d' % every, "SameK OutK")
def each(alpha, n): return M("EachMC", 'Alpha="%s" MaxOps=%d' % (alpha, n), "Shown OutE")
def io(n): return M("IoMC", "MaxOps=%d" % n, "Lazy Once Few Out")
def indep(n): return M("IndepMC", "Switches=%d" % n, "Apart Out")
def logs(n): return M("LogMC", "NSinks=%d" % n, "Results Delivered", view=True)
def unix(n): return M("UnixMC", "MaxItems=%d" % n, "Alike Out")


def lazy(n, tables, rows, calls, guarded=True):
    d = dict(consts="Threads={%s} Tables={%s} Rows=%d Calls=%d Guarded=%s" % (",".join(map(str, range(1, n + 1))), ",".join('"%s"' % t for t in tables), rows, calls, str(guarded).upper()), invs="NoRace Whole")
    return dict(d, model="LazyInit", pure=True, props="Finish") if guarded else dict(d, control="LazyInit")


def thr(n, rep): return M("ThrMC", "Threads=%d Repeat=%d" % (n, rep), "Alone Out", exe="tsan", isolate=True, timeout=60)


def share(n, asks, wide): return M("ShareMC", "Threads=%d Asks=%d Wide=%s" % (n, asks, str(wide).upper()), "AsAlone Out", exe="tsan", isolate=True, timeout=60)


WELL = dict(mal=0, mutate=0, failing=0)
CONTENT = ("ent", "ctx", "r", "exc")
ASSUME_TEXT = ["clang's sanitizers and libstdc++ behave as documented", "the driver only transports calls and observations"]

PLAN = {
    "C01": dict(mask=CONTENT,
                quick=[cat(2, 1), cat(1, 2), G("parse_session", 1200, **WELL), G("long_session", 250), G("scale_session", 10)],
                thorough=[cat(2, 1), cat(1, 2), cat(2, 2), G("parse_session", 12000, **WELL), G("long_session", 4000), G("scale_session", 250)]),
    "C02": dict(mask=CONTENT + ("warn", "err"),
                quick=[lit("raw", 4), lit("round", 3), lit("bytes", 1), G("literal_session", 900), G("long_session", 150)],
                thorough=[lit("raw", 6), lit("round", 4), lit("bytes", 2), G("literal_session", 9000), G("long_session", 3000)]),
    "C03": dict(mask=CONTENT,
                quick=[block(2, 2), PO("base", 1), G("parse_session", 900, mal=0.5), G("many_session", 40), G("scale_session", 6)],
                thorough=[block(3, 2), PO("base", 1, dview=True), PO("odd", 1), G("parse_session", 6000, mal=0.5), G("many_session", 900), G("scale_session", 120)]),
    "C04": dict(mask=CONTENT,
                quick=[trunc("cut", 0), trunc("soup", 3), PO("base", 0, cut=True), G("cut_session", 1000), G("parse_session", 400, mutate=1.0), G("long_session", 300), G("scale_session", 5), G("scale_session", 5, lines=1)],
                thorough=[trunc("cut", 0), trunc("soup", 4), PO("base", 1, cut=True), PO("odd", 1, cut=True), G("cut_session", 9000), G("parse_session", 9000, mutate=1.0), G("long_session", 4000), G("scale_session", 250)]),
    "C05": dict(mask=("warn", "err", "warnB", "errB", "places"),
                quick=[PO("odd", 0), PO("odd", 0, ped=False), PO("hdr", 1), G("parse_session", 1000), G("many_session", 20, mal=0.5), G("mgr_session", 120, faults=0.3)],
                thorough=[PO("odd", 1), PO("odd", 1, ped=False), PO("hdr", 1), block(3, 2), G("parse_session", 9000), G("many_session", 600, mal=0.5), G("mgr_session", 2000, faults=0.3)]),
    "C06": dict(mask=("ent", "ctx", "r", "rf"),
                quick=[fuzzy(2), dic("plain", 2), G("mgr_session", 250, fuzzy=0.4), G("parse_session", 500, mal=0), G("scale_session", 6)],
                thorough=[fuzzy(3), dic("plain", 3), dic("ctx", 3), G("mgr_session", 2500, fuzzy=0.4), G("parse_session", 4000, mal=0), G("scale_session", 120)]),
    "C07": dict(mask=CONTENT + ("np", "pv", "warn"),
                quick=[hdr(3, 1)] + [hdr(2, f) for f in (2, 3, 4, 5)] + [PO("hdr", 1), G("parse_session", 900, mal=0), G("scale_session", 10)],
                thorough=[hdr(4, 1)] + [hdr(3, f) for f in (2, 3, 4, 5)] + [PO("hdr", 1, dview=True), G("parse_session", 6000, mal=0), G("scale_session", 250)]),
    "C08": dict(mask=CONTENT + ("errB",),
                quick=[conv(2, False), conv(1, True), G("conv_session", 1200, translit=0.2), G("conv2_session", 300, translit=0.2), G("parse_session", 400, mal=0)],
                thorough=[conv(3, False), conv(3, True), G("conv_session", 12000, translit=0.2), G("conv2_session", 4000, translit=0.2), G("parse_session", 5000, mal=0)]),
    "C09": dict(mask=("ent", "ctx", "r"),
                quick=[big5(3, "UTF-8"), big5(3, "BIG5"), G("big5_session", 900)],
                thorough=[big5(4, "UTF-8"), big5(4, "BIG5"), G("big5_session", 6000)]),
    "C10": dict(mask=("def", "np", "v", "maybe", "bad", "pv", "eq", "sym"),
                quick=[plural("spell", 9973), plural("damage", 0), G("plural_session", 900), dict(sweep=3)],
                thorough=[plural("spell", 997), plural("damage", 0), G("plural_session", 8000), dict(sweep=1)]),
    "C11": dict(mask=("r", "rin"),
                quick=[dic("plain", 3), dic("both", 2), G("dict_session", 900), G("parse_session", 400, mal=0), G("scale_dict_session", 60)],
                thorough=[dic("plain", 4), dic("both", 3), G("dict_session", 6000), G("parse_session", 3000, mal=0), G("scale_dict_session", 900)]),
    "C12": dict(mask=("r", "ent", "ctx"),
                quick=[join(2, 16), dic("both", 3), dic("ctx", 3), G("dict_session", 500), G("dict_session", 400, nd=2), G("parse_session", 300, mal=0), G("scale_dict_session", 100)],
                thorough=[join(4, 16), dic("both", 4), dic("ctx", 3), fb("some"), G("dict_session", 3000), G("dict_session", 3000, nd=3), G("parse_session", 3000, mal=0), G("scale_dict_session", 900)]),
    "C13": dict(mask=("ent", "ctx", "r", "warnB"),
                quick=[dic("plain", 3), dic("ctx", 3), dic("both", 3), G("dict_session", 900), G("scale_dict_session", 100)],
                thorough=[dic("plain", 4), dic("ctx", 4), dic("both", 4), G("dict_session", 6000), G("scale_dict_session", 900)]),
    "C14": dict(mask=("r", "exc"),
                quick=[fb("some"), every(1), G("fallback_session", 300), G("dict_session", 300, nd=3), G("chain_session", 40), G("base_session", 250)],
                thorough=[fb("all"), every(1), G("fallback_session", 4000), G("dict_session", 3000, nd=3), G("chain_session", 600), G("base_session", 3000)]),
    "C15": dict(mask=("r",),
                quick=[lang("spec", False), G("lang_session", 900), G("long_locale_session", 150)],
                thorough=[lang("spec", True), lang("match", False), G("lang_session", 9000), G("long_locale_session", 3000)]),
    "C16": dict(mask=("r",),
                quick=[env("parts"), env("names"), env("chars"), G("lang_session", 1200), G("long_locale_session", 200)],
                thorough=[env("parts"), env("names"), env("chars", 5), G("lang_session", 9000), G("long_locale_session", 3000)]),
    "C17": dict(mask=("r", "eq", "ne", "order"),
                quick=[lang("match", False), G("lang_session", 600), G("long_locale_session", 100)],
                thorough=[lang("match", True), G("lang_session", 6000), G("long_locale_session", 1500)]),
    "C18": dict(mask=("ent", "ctx", "r"),
                quick=[dirs(2, "one"), dirs(2, "two"), every(2), G("mgr_session", 300), G("crowd_session", 4), G("crowd_session", 5, ndirs=1)],
                thorough=[dirs(3, "one"), dirs(2, "two"), every(1), G("mgr_session", 4000), G("crowd_session", 80), G("crowd_session", 40, ndirs=1)]),
    "C19": dict(mask=("ent", "ctx", "r"),
                quick=[path(3, True), path(3, True, "nested"), path(2, True, "near"), G("mgr_session", 400, ndirs=4), G("crowd_session", 8, ndirs=20)],
                thorough=[path(4, False), path(4, True, "nested"), path(4, True, "near"), G("mgr_session", 3000, ndirs=4), G("crowd_session", 60), G("crowd_session", 60, ndirs=20)]),
    "C20": dict(mask=("ent", "ctx", "np", "pv", "r", "exc", "obj", "dcs", "rf", "excw"),
                quick=[mgr(False), G("mgr_session", 250, sw=0.3, same=True), G("mgr_session", 200, faults=0.3, sw=0.1), G("mgr_session", 250, sw=0.5, ask=1.0, ndirs=2), G("crowd_session", 5)],
                thorough=[mgr(True), G("mgr_session", 2500, sw=0.3, same=True), G("mgr_session", 2500, faults=0.3, sw=0.1), G("mgr_session", 4000, sw=0.5, ask=1.0, ndirs=2), G("crowd_session", 80)]),
    "C21": dict(mask=("set", "undef", "exc", "excw", "ent", "ctx"),
                quick=[dirs(2, "one"), dirs(2, "two"), every(2), G("mgr_session", 300), G("crowd_session", 4), G("crowd_session", 5, ndirs=1)],
                thorough=[dirs(3, "one"), dirs(2, "two"), every(1), G("mgr_session", 3000), G("crowd_session", 80), G("crowd_session", 40, ndirs=1)]),
    "C22": dict(mask=CONTENT + ("errB", "excw"),
                quick=[fault(False), G("mgr_session", 500, faults=0.5), G("parse_session", 400, failing=0.7)],
                thorough=[fault(True), G("mgr_session", 4000, faults=0.5), G("parse_session", 3000, failing=0.7)]),
    "C23": dict(mask=("r",),
                quick=[env("files"), G("fn_session", 1500), G("long_locale_session", 200)],
                thorough=[env("files", 5), G("fn_session", 12000), G("long_locale_session", 3000)]),
    "C24": dict(mask=("sinks", "cerrB", "about", "like", "r", "ent", "ctx"),
                quick=[logs(4), G("log_session", 700)],
                thorough=[logs(4), G("log_session", 5000), G("mgr_session", 1000, logs=True, mask=("r", "ent", "ctx"))]),
    "C25": dict(mask=("thr",),
                quick=[lazy(3, ["t"], 3, 2), lazy(2, ["t"], 2, 1, guarded=False), thr(4, 2), G("thr_session", 150, exe="tsan", isolate=True, timeout=60)],
                thorough=[lazy(3, ["t", "u"], 3, 2), lazy(2, ["t"], 2, 1, guarded=False), thr(8, 2), G("thr_session", 3000, exe="tsan", isolate=True, timeout=60)]),
    "C26": dict(mask=("r", "exc", "ok", "ent", "ctx", "set"),
                quick=[unix(2), G("unix_session", 300), G("big_files_session", 3)],
                thorough=[unix(3), G("unix_session", 2500), G("big_files_session", 60)]),
    "C27": dict(mask=("heap", "iconv", "streams", "fds", "open"),
                quick=[res(3), fault(False, True), G("resource_session", 500)],
                thorough=[res(4), fault(True, True), G("resource_session", 9000)]),
    "C30": dict(mask=("r", "ent", "ctx", "np", "pv", "v", "exc", "obj", "dcs", "set", "re", "altered", "warn", "err"),
                quick=[re_(False), G("reent_session", 350), G("mgr_session", 200, sw=0.6, ask=1.0)],
                thorough=[re_(True), G("reent_session", 6000), G("mgr_session", 3000, sw=0.6, ask=1.0)]),
    "C29": dict(mask=("all",),
                quick=[loc((0, 1, 2, 5, 6, 7)), G("locale_session", 500)],
                thorough=[loc(range(8)), G("locale_session", 9000)]),
    "C31": dict(mask=("fo", "fl"),
                quick=[io(2), path(2, True), G("mgr_session", 300), G("mgr_session", 150, faults=0.3), G("indep_session", 150), G("crowd_session", 6)],
                thorough=[io(3), path(3, True), dirs(2, "two"), fault(False), G("mgr_session", 3000), G("mgr_session", 3000, faults=0.3), G("indep_session", 2000), G("crowd_session", 80)]),
    "C32": dict(mask=("all",),
                quick=[indep(3), G("indep_session", 400)],
                thorough=[indep(7), G("indep_session", 6000)]),
    "C33": dict(mask=CONTENT + ("left", "warn", "err", "np", "pv"),
                quick=[stream(9), G("stream_session", 700)],
                thorough=[stream(1), G("stream_session", 9000)]),
    "C34": dict(mask=("ent", "ctx", "thrown1", "thrown2", "ret1", "ret2", "odd1", "odd2", "seen1", "seen2"),
                quick=[each("plain", 3), each("ctx", 3), each("both", 3), G("each_session", 500), G("scale_dict_session", 80)],
                thorough=[each("plain", 4), each("ctx", 4), each("both", 4), G("each_session", 6000), G("scale_dict_session", 900)]),
    "C35": dict(mask=("nset", "nhash", "neq", "bad", "r", "eq", "ne", "order"),
                quick=[lang("keys", False), G("key_session", 500)],
                thorough=[lang("keys", True), G("key_session", 6000)]),
    "C36": dict(mask=("infoB", "errB", "warnB", "sinks", "cerrB", "about"),
                quick=[dic("plain", 3), dic("ctx", 2), dic("both", 2), told(2), G("dict_session", 400, nd=3), G("fallback_session", 200), G("tell_session", 300), G("chain_session", 30), G("scale_dict_session", 30)],
                thorough=[dic("plain", 4), dic("ctx", 3), dic("both", 3), told(3), G("dict_session", 4000, nd=3), G("fallback_session", 2000), G("tell_session", 5000), G("chain_session", 300), G("scale_dict_session", 300)]),
    "C37": dict(mask=("rs", "told", "pvs", "ents", "entn"),
                quick=[share(2, 2, False), G("share_session", 250, exe="tsan", isolate=True, timeout=60)],
                thorough=[share(3, 2, False), share(2, 1, True), G("share_session", 4000, exe="tsan", isolate=True, timeout=60)]),
    "C28": dict(mask=("ent", "ctx", "r", "np", "pv", "obj", "dcs"),
                quick=[hold(3), G("hold_session", 400), G("base_session", 150), G("crowd_session", 8, held=True)],
                thorough=[hold(4), G("hold_session", 6000), G("base_session", 2000), G("crowd_session", 120, held=True)]),
}

NOTES = {
    "C01": 'All catalogues of up to two messages over a small text alphabet and nine layouts, plus random well-formed files; files outside those bounds are sampled.',
    "C02": 'All raw literals to length 4 (thorough 6) over the critical alphabet, every byte in every position, all texts to length 3 escaped and decoded again, random longer ones (with NUL and very long lines); unknown-escape warnings compared by line.',
    "C03": 'Complete line-level state graph of the parser over a 16-line (thorough 38-line) alphabet with texts abstracted to empty/non-empty, every transition replayed; block combinations at different places of long files; random mixed files.',
    "C04": 'Every truncation and read-failure point of a representative file, all short byte soups, the parser graph with cuts, random mutated files; hangs are caught by a 10 s limit, memory by a 3 GB limit.',
    "C29": 'Jobs covering all parts of the library, every pair of six (thorough eight) locale settings (C, Turkish and German one-byte locales compiled for the run, a C++ locale grouping digits, one with other classes, cases and order of characters, and combinations); random sessions of all other kinds with the locale changing in between.',
    "C30": 'Every kind of call within the callbacks of every other kind (thorough: every pair), random sessions of all kinds; dictionaries that are being loaded are only required to be the ones returned later.',
    "C05": 'Line numbers and kinds of all messages, for every transition of the parser graph over irregular lines (pedantic on and off) and random files; message wording is not compared.',
    "C06": 'All files of two (thorough three) blocks of fuzzy/empty variants under both settings; dictionary histories; random managers.',
    "C07": 'All headers of up to three fields from a field alphabet in five spellings, files in sequence into one dictionary; graph of header lines.',
    "C08": 'Exact decoders and encoders for ASCII, ISO-8859-1/2/7/15, KOI8-R, UTF-8/16/32, BIG5, EUC-JP, SHIFT_JIS, ISO-2022-JP (extracts); //TRANSLIT by a table of replacements; other glibc charsets are not decided.',
    "C09": 'All sequences of three (thorough four) units of Big5 characters with critical trail bytes, escapes and quotes, for UTF-8 and Big5 dictionaries.',
    "C10": 'TLC evaluates each declared C expression; counts 0..~300, strided samples and a sweep of blocks to 2^31-1 in quick, every count to 2^31-1 in thorough (by the period-100 fact TLC checks); whitespace variants and one-character damages.',
    "C11": 'All histories of up to three additions over colliding messages with every lookup; random dictionaries and rules.',
    "C12": 'All histories of up to three additions mixing contexts, with every lookup; all pairs (thorough: quadruples) of messages that are alike once context and text are joined by one of sixteen separators; random histories, with fallback chains.',
    "C13": 'All histories of up to three (thorough four) additions; enumeration compared as a set with multiplicity.',
    "C14": 'All pairs of small country/base catalogues over singular, plural and context messages with different rules; random ones.',
    "C15": 'All language codes x selected countries x modifiers (thorough: all countries and modifiers of the table) against an own copy of the language table.',
    "C16": 'All combinations of part alphabets, all aliases in several letter cases, all short strings over the separator alphabet; strings contain no NUL.',
    "C17": 'All pairs of languages sharing a code and one representative per pair of codes (thorough: all pairs), against the documented score table.',
    "C18": 'All directories of up to two (thorough three) files from a 17-name alphabet in every order, all requests; random managers.',
    "C19": 'All sequences of up to three (thorough four) add/remove operations over overlapping catalogues; random ones.',
    "C20": "Complete state graph of the manager's settings and cache over two directories, two languages, failing listings, languages chosen by callbacks while others load: no bound on the history length; every transition replayed with follow-up requests. Changes of search path, charset or fuzzy setting by a callback of the same manager are not explored.",
    "C21": 'As C18, comparing the listed set; random managers with several directories.',
    "C22": 'Every single (thorough: every pair of) fault placement over directories and files, with retry after recovery; random faults in longer histories.',
    "C23": 'All strings to length 4 (thorough 5) over the critical alphabet with and without .po; random ones.',
    "C24": 'Graph of all callback assignments (three sinks, default, null) x operations of each severity, every transition replayed; message wording is only compared with the same operation under another assignment.',
    "C25": 'LazyInit is checked for all interleavings of three threads (and must fail unguarded); the code is run under ThreadSanitizer from its very first call with the calls in different orders, every result compared: real schedules are sampled, races are judged by happens-before.',
    "C27": 'All sequences of up to three (thorough four) operations over catalogues, converters, managers and failures, each run twice before heap, descriptors, converters and streams are counted; faulty file systems; random sessions of every kind. Growth that a repetition does not show (first-use caches) is allowed.',
    "C28": 'All sequences of up to three (thorough four) operations with kept and edited dictionary references; random histories. References are not used after a change of search path, charset or fuzzy setting.',
    "C31": 'All histories of up to two (thorough three) settings, requests and listings over two directories with unreadable and failing files, then all requests again; random managers with and without faults. Directory listings may be fewer than specified (a cache of them would be right).',
    "C32": 'All pairs of eight jobs (parsers, dictionaries, managers, converters, rules, heavy use of everything) in every interleaving with up to three switches (thorough: all interleavings of four calls each); random sessions of all kinds interwoven with their objects renumbered.',
    "C33": 'Fourteen kinds of stream (memory, file, byte-wise, unbuffered, positioned within or at the end, formatted differently, read-write, tied, throwing when bad, failed or bad before) for four representative files cut at every ninth (thorough: every) byte and for random files; two kinds one after the other into one dictionary.',
    "C34": 'All histories of up to three (thorough four) additions, enumerated completely and with visitors that stop at the first, second and third message and look messages up meanwhile; random histories and catalogues.',
    "C35": 'For every language of the table: lists of it, its relatives, other spellings of them and unknown ones, put into containers by order, by hash and by equality (thorough: all pairs); random lists.',
    "C36": 'All histories of up to three (thorough four) additions with every lookup; chains of two (thorough three) dictionaries, each knowing a message in one of twelve ways, with and without log callbacks; random dictionaries and chains.',
    "C37": 'Dictionaries of all shapes (rule, forms, context, fallback), asked by four threads at once under ThreadSanitizer; the model interleaves the lookups of two (thorough three) threads in every order: real schedules are sampled, races are judged by happens-before.',
    "C26": 'All directories of up to two (thorough three) items of each kind in a scratch directory; random names, sizes and contents.',
}
TRUST = " Trusts TLC, the sanitizers and the driver; beyond the stated bounds random recorded sessions are checked against the same specification."
for k in PLAN:
    PLAN[k]["note"] = NOTES[k] + TRUST
    PLAN[k]["assume"] = ASSUME_TEXT
