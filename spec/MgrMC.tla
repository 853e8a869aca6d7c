-------------------------------- MODULE MgrMC --------------------------------
(* The manager's whole state graph (C20): settings, cache, current language,*)
(* failing directories.  Histories that leave it in the same state are the  *)
(* same state, so the graph is complete without a bound on their length.    *)
(* Every transition is replayed, followed by requests.                      *)
EXTENDS Drive
CONSTANTS Deep

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Hdr(cs) == << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=" \o cs \o "\\n"), q("Plural-Forms: nplurals=2; plural=(n != 1);\\n"), <<>> >>
D1 == B("d1")
D2 == B("d2")
\* the text is an a umlaut in either charset; one entry is fuzzy; the country knows one message
De1 == Joined(Hdr("UTF-8") \o << K("msgid", "a"), B("msgstr ") \o <<QUOTE, 49, 195, 164, QUOTE>>, <<>>, B("#, fuzzy"), K("msgid", "f"), K("msgstr", "F1") >>)
De2 == Joined(Hdr("ISO-8859-1") \o << K("msgid", "a"), B("msgstr ") \o <<QUOTE, 50, 228, QUOTE>>, <<>>, K("msgid", "b"), K("msgstr", "B2") >>)
DeAT == Joined(Hdr("UTF-8") \o << B("#, fuzzy"), K("msgid", "g"), K("msgstr", "GAT"), <<>>, K("msgid", "h"), K("msgstr", "HAT") >>)
Fr == Joined(Hdr("UTF-8") \o << K("msgid", "a"), K("msgstr", "FR") >>)
PutF(d, n, c) == [ op |-> "put", f |-> 1, dir |-> d, name |-> B(n), mode |-> "ok", content |-> c ]
Qq(k, a, n) == [ op |-> "q", k |-> k, a |-> a, n |-> n ]
Setup == << [ op |-> "fs", f |-> 1 ], PutF(D1, "de.po", De1), PutF(D1, "fr.po", Fr), PutF(D2, "de.po", De2), PutF(D2, "de_AT.po", DeAT), PutF(D2, "junk.po", <<>>),
            Qq("tr", <<B("a")>>, 0), Qq("tr", <<B("f")>>, 0), Qq("tr", <<B("g")>>, 0), Qq("tr", <<B("h")>>, 0), Qq("tr", <<B("b")>>, 0), [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ] >>
Get(l) == [ op |-> "get", m |-> 1, s |-> B(l) ]
CurDict == [ op |-> "cur", m |-> 1 ]
SL(l) == [ op |-> "setlang", m |-> 1, s |-> B(l) ]
Add(d, p) == [ op |-> "adddir", m |-> 1, dir |-> d, prec |-> p ]
Rm(d) == [ op |-> "rmdir", m |-> 1, dir |-> d ]
Cs(c) == [ op |-> "setcs", m |-> 1, cs |-> B(c) ]
Fz(v) == [ op |-> "setfuzzy", m |-> 1, v |-> v ]
Fail(d, n) == [ op |-> "dirfail", f |-> 1, dir |-> d, n |-> n ]
Langs == [ op |-> "langs", m |-> 1 ]
GL == [ op |-> "getlang", m |-> 1 ]
Sw(l) == [ op |-> "sw", m |-> 1, s |-> B(l) ]
\* a dictionary asked for by a callback, after which directory d (if any) fails
Ask(l, d) == [ op |-> "ask", m |-> 1, s |-> B(l), dir |-> d ]
Ops == << Get("de"), Get("de_AT"), CurDict, SL("de"), SL("de_AT"), SL(""), Add(D1, 0), Add(D2, 0), Add(D2, 1), Rm(D1), Rm(D2), Cs("UTF-8"), Cs("ISO-8859-1"), Fz(0), Fz(1), Fail(D1, -1), Fail(D1, 0), Langs >>
\* a language chosen within a callback of the call
Steps == TLCEval([ i \in 1..Len(Ops) |-> <<Ops[i]>> ]) \o << <<Sw("de_AT"), CurDict>>, <<Sw("de"), CurDict>>, <<Sw(""), Get("de_AT")>>,
                                                                        <<Ask("de_AT", D1), Get("de")>>, <<Ask("de", D1), Get("de_AT")>> >> \o IF Deep THEN << <<Sw("de_AT"), Get("de")>>, <<Sw("de"), Langs>>, <<Ask("", <<>>), CurDict>>, <<Sw("de_AT"), Ask("", D1), Get("de")>>, <<Ask("de_AT", <<>>), Langs>> >> ELSE <<>>
NOps == Len(Steps)
\* the history, the session it leads to, and what a sloppy implementation could remember besides: what was last asked for
VARIABLES vH, vS, vLast
Init == vH = <<>> /\ vS = FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup) /\ vLast = <<0, 0>>
Resolved(o) == o.op = "cur"
\* a setting that is as it was may or may not make the manager load again, which a failing directory would tell
Idle(o) == LET m == vS.mgr[1] IN \/ (o.op = "setcs" /\ o.cs = m.cs) \/ (o.op = "setfuzzy" /\ (o.v = 1) = m.fuzzy)
                                \/ (o.op = "rmdir" /\ ~\E j \in 1..Len(m.path) : m.path[j] = o.dir)
\* what kind of call was the last
Class(op) == CASE op \in {"get", "cur"} -> 1 [] op = "setlang" -> 2 [] op \in {"adddir", "rmdir"} -> 3 [] op \in {"setcs", "setfuzzy"} -> 4 [] op = "dirfail" -> 5 [] OTHER -> 6
Next == \E i \in 1..NOps :
          /\ ~Idle(Steps[i][1])
          /\ vH' = Append(vH, i) /\ vS' = FoldLeft(LAMBDA s, e : Apply(s, e).s, vS, Steps[i])
          /\ vLast' = <<IF Deep THEN Class(Steps[i][1].op) ELSE 0,
                        \* was the current dictionary asked for since the language was chosen?
                        IF Steps[i][1].op \in {"sw", "ask"} THEN 0 ELSE IF Steps[i][1].op = "cur" THEN 1 ELSE IF Steps[i][1].op = "setlang" THEN 0 ELSE vLast[2]>>
Spec == Init /\ [][Next]_<<vH, vS, vLast>>
M == vS.mgr[1]
View == <<M.path, M.cs, M.fuzzy, M.cur, DOMAIN M.cache, DirOf(vS.fs[1], D1).fail, vLast>>
EmitT == Show(Setup \o Flatten(TLCEval([ i \in 1..Len(vH') |-> Steps[vH'[i]] ])) \o << CurDict, GL, Get("de_AT"), Get("de"), CurDict, Fail(D1, 0), CurDict, Get("de_AT"), SL("de"), CurDict, Langs >>)
Bounded == TLCGet("level") < 40

\* the cache holds nothing but what a fresh manager would load now
Healed == Put(vS.fs[1], D1, [ DirOf(vS.fs[1], D1) EXCEPT !.fail = FALSE ])
Fresh == \A l \in DOMAIN M.cache :
           LET n == [ NewMgr(1, M.cs) EXCEPT !.path = M.path, !.fuzzy = M.fuzzy ]
               r == Request(Healed, n, l)
           IN r.ok /\ Resolve(M.cache, l) = Resolve(r.m.cache, l)
\* fallbacks stay within the cache
Linked == \A l \in DOMAIN M.cache : M.cache[l].fb = <<>> \/ M.cache[l].fb[1] \in DOMAIN M.cache
=============================================================================
