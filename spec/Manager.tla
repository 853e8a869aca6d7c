------------------------------ MODULE Manager ------------------------------
(* DictionaryManager over a file system.                                    *)
(* A file system is a function  directory -> [fail, files] with files a     *)
(* sequence (listing order) of [name, mode, content]; mode says what goes   *)
(* wrong: "ok", "null" (no stream), "throw?" (open throws something), "bad" *)
(* (stream in a failed state), "dir" (not readable), "fail" (a failing read *)
(* at offset `at`), "xfail" (the same, and the stream throws; only used     *)
(* where an entry is being read that cannot be complete).                   *)
EXTENDS PoParser, Lang

DirOf(fs, d) == IF d \in DOMAIN fs THEN fs[d] ELSE [ fail |-> FALSE, files |-> <<>> ]

NewMgr(f, cs) == [ f |-> f, path |-> <<>>, cs |-> cs, fuzzy |-> TRUE, cur |-> 0, cache |-> EmptyFcn, gen |-> 0, empty |-> NewDict(B("UTF-8")) ]

Score18(lang, name) == LET l == FileLang(name) IN IF l = 0 THEN 0 ELSE Match(lang, l)
\* index of the catalogue a directory contributes, 0 if none
BestFile(lang, files) == BestOf(TLCEval([ i \in 1..Len(files) |-> i ]), LAMBDA i : Score18(lang, files[i].name))
UnknownPo(files) == \E i \in 1..Len(files) : HasSuffix(files[i].name, DotPo) /\ FileLang(files[i].name) = 0

CannotOpen == {"null", "bad", "throw", "throwl", "throwm", "throwo", "throwr", "throws"}
\* the places a list of line numbers stands for; a stream that throws hides those at the end
PlacesOf(path, ns, sev) == { <<path, ns[i], sev>> : i \in { j \in 1..Len(ns) : ns[j] # Unplaced } }
\* one catalogue file read into d: [d, err, warn, at (places of messages), unk]
ReadFile(d, file, path, fuzzy) ==
  IF file.mode \in CannotOpen THEN [ d |-> d, err |-> 1, warn |-> 0, unk |-> FALSE, at |-> {}, blur |-> FALSE ]
  ELSE LET p == Parse(file.content, IF file.mode = "ok" THEN -1 ELSE IF file.mode = "dir" THEN 0 ELSE file.at, TRUE, fuzzy, d)
       IN [ d |-> p.d, err |-> Bool01(p.errs # <<>> \/ p.exc = 1 \/ p.bad), warn |-> Bool01(p.warns # <<>>), unk |-> p.exc = 2,
              at |-> PlacesOf(path, p.errs, 3) \cup PlacesOf(path, p.warns, 2), blur |-> file.mode = "xfail" ]

\* own catalogues, lowest precedence first: [ok, d, err, warn]
RECURSIVE LoadPath(_, _, _, _, _, _)
LoadPath(fs, path, i, lang, fuzzy, a) ==
  IF i = 0 \/ ~a.ok THEN a
  ELSE LET dir == DirOf(fs, path[i])
           b == BestFile(lang, dir.files)
           fn == path[i] \o <<47>> \o dir.files[b].name
           r == IF b = 0 THEN [ d |-> a.d, err |-> 0, warn |-> 0, unk |-> FALSE, at |-> {}, blur |-> FALSE ] ELSE ReadFile(a.d, dir.files[b], fn, fuzzy)
           w == Bool01(UnknownPo(dir.files))
           B1(x, y) == IF x + y > 0 THEN 1 ELSE 0
       IN IF dir.fail THEN [ a EXCEPT !.ok = FALSE ]
          ELSE LoadPath(fs, path, i - 1, lang, fuzzy,
                        [ ok |-> TRUE, d |-> r.d, err |-> B1(a.err, r.err), warn |-> B1(B1(a.warn, r.warn), w), unk |-> a.unk \/ r.unk, at |-> a.at \cup r.at, blur |-> a.blur \/ r.blur,
                          fo |-> IF b = 0 THEN a.fo ELSE Append(a.fo, fn), fl |-> Append(a.fl, path[i]) ])
\* nothing asked, nothing said; fo, fl: the files and directories asked for
Calm(m) == [ ok |-> TRUE, m |-> m, err |-> 0, warn |-> 0, unk |-> FALSE, at |-> {}, blur |-> FALSE, fo |-> <<>>, fl |-> <<>> ]
LoadOwn(fs, m, lang) ==
  LoadPath(fs, m.path, Len(m.path), lang, m.fuzzy, [ ok |-> TRUE, d |-> NewDict(m.cs), err |-> 0, warn |-> 0, unk |-> FALSE, at |-> {}, blur |-> FALSE, fo |-> <<>>, fl |-> <<>> ])

BaseLang(lang) == FromSpec(LCode(lang), <<>>, <<>>)
HasBase(lang) == LCountry(lang) # <<>>

\* request: [ok, m, err, warn, at, ...]; the fallback is kept as a reference to a language
RECURSIVE Request(_, _, _)
Request(fs, m, lang) ==
  IF lang \in DOMAIN m.cache THEN Calm(m)
  ELSE LET o == LoadOwn(fs, m, lang)
           own == [ ok |-> o.ok, m |-> m, err |-> o.err, warn |-> o.warn, unk |-> o.unk, at |-> o.at, blur |-> o.blur, fo |-> o.fo, fl |-> o.fl ] IN
    IF ~o.ok THEN own
    ELSE IF ~HasBase(lang) THEN [ own EXCEPT !.m = [ m EXCEPT !.cache = Put(@, lang, o.d) ] ]
    ELSE LET b == Request(fs, m, BaseLang(lang)) IN
         [ ok |-> b.ok, err |-> IF o.err + b.err > 0 THEN 1 ELSE 0, warn |-> IF o.warn + b.warn > 0 THEN 1 ELSE 0,
           unk |-> o.unk \/ b.unk, at |-> o.at \cup b.at, blur |-> o.blur \/ b.blur, fo |-> o.fo \o b.fo, fl |-> o.fl \o b.fl,
           m |-> IF b.ok THEN [ b.m EXCEPT !.cache = Put(@, lang, [ o.d EXCEPT !.fb = <<BaseLang(lang)>> ]) ] ELSE b.m ]

\* the dictionary as a user sees it: references resolved
RECURSIVE Resolve(_, _)
Resolve(cache, k) == LET d == cache[k] IN IF d.fb = <<>> THEN d ELSE [ d EXCEPT !.fb = <<Resolve(cache, d.fb[1])>> ]

Clear(m) == [ m EXCEPT !.cache = EmptyFcn, !.gen = @ + 1 ]
AddDir(m, d, prec) == IF d \in RangeOf(m.path) THEN m
                      ELSE [ Clear(m) EXCEPT !.path = IF prec THEN <<d>> \o @ ELSE Append(@, d) ]
RmDir(m, d) == IF d \notin RangeOf(m.path) THEN m
               ELSE [ Clear(m) EXCEPT !.path = SelectSeq(@, LAMBDA x : x # d) ]
SetCs(m, cs) == [ Clear(m) EXCEPT !.cs = cs ]
SetFuzzy(m, v) == [ Clear(m) EXCEPT !.fuzzy = v ]

\* available languages
ListOk(fs, m) == \A i \in 1..Len(m.path) : ~DirOf(fs, m.path[i]).fail
Available(fs, m) ==
  UNION { LET files == DirOf(fs, m.path[i]).files IN { FileLang(files[j].name) : j \in 1..Len(files) } : i \in 1..Len(m.path) } \ {0}

\* what a manager without any history would answer
FreshLoad(fs, m, lang) == Request(fs, [ m EXCEPT !.cache = EmptyFcn ], lang)
=============================================================================
