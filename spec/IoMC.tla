--------------------------------- MODULE IoMC ---------------------------------
(* What a manager asks its file system for (C31): every history of settings, *)
(* requests and listings over two directories.                               *)
EXTENDS Drive
CONSTANTS MaxOps

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Hdr == << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=UTF-8\\n"), <<>> >>
Po(s) == Joined(Hdr \o << K("msgid", "a"), K("msgstr", s), <<>> >>)
PutF(d, n, m, c) == [ op |-> "put", f |-> 1, dir |-> B(d), name |-> B(n), mode |-> m, content |-> c ]
Qq(k, a, n) == [ op |-> "q", k |-> k, a |-> a, n |-> n ]
Add(d, p) == [ op |-> "adddir", m |-> 1, dir |-> B(d), prec |-> p ]
Get(l) == [ op |-> "get", m |-> 1, s |-> B(l) ]
Setup == << [ op |-> "fs", f |-> 1 ], PutF("d", "de.po", "ok", Po("D")), PutF("d", "de_AT.po", "ok", Po("DA")), PutF("d", "README", "ok", Po("X")), PutF("d", "fr.po", "null", Po("F")),
            PutF("e", "de_DE.po", "ok", Po("E")), PutF("e", "de_CH.po", "throw", Po("EC")), PutF("e", "xx.po", "ok", Po("X")),
            Qq("tr", <<B("a")>>, 0), Qq("tr", <<B("zz")>>, 0), Qq("trp", <<B("a"), B("b")>>, 2), [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ], Add("d", 0) >>
Ops == << Get("de"), Get("de_AT"), Get("de_CH"), Get("fr"), Add("e", 0), Add("e", 1), Add("d", 0), [ op |-> "rmdir", m |-> 1, dir |-> B("d") ], [ op |-> "rmdir", m |-> 1, dir |-> B("e") ],
          [ op |-> "cur", m |-> 1 ], [ op |-> "setlang", m |-> 1, s |-> B("de_AT") ], [ op |-> "setlang", m |-> 1, s |-> <<>> ], [ op |-> "langs", m |-> 1 ], [ op |-> "getlang", m |-> 1 ],
          [ op |-> "setcs", m |-> 1, cs |-> B("ISO-8859-1") ], [ op |-> "setfuzzy", m |-> 1, v |-> 0 ], [ op |-> "dirfail", f |-> 1, dir |-> B("e"), n |-> -1 ], [ op |-> "dirfail", f |-> 1, dir |-> B("e"), n |-> 0 ] >>
VARIABLES vH
Init == vH = <<>>
Next == Len(vH) < MaxOps /\ \E i \in 1..Len(Ops) : vH' = Append(vH, i) /\ (Ops[i].op \in {"setcs", "setfuzzy"} => i \notin RangeOf(vH))   \* only changes: what is loaded may be kept otherwise
Spec == Init /\ [][Next]_vH
Hist == TLCEval([ i \in 1..Len(vH) |-> Ops[vH[i]] ])
Out == Show(Setup \o Hist \o << Get("de_AT"), Get("de"), [ op |-> "langs", m |-> 1 ], [ op |-> "cur", m |-> 1 ] >>)

P == Play(Setup \o Hist)
H0 == Len(Setup)
Loads(e) == e.op \in {"get", "cur"}
Resets(e) == e.op \in {"setcs", "setfuzzy", "rmdir"} \/ (e.op = "adddir")
Files(i) == IF "fo" \in DOMAIN P[i].x THEN RangeOf(P[i].x.fo) ELSE {}
\* only requests open files, only requests and listings list directories
Lazy == \A i \in (H0 + 1)..Len(P) : (Files(i) # {} => Loads(P[i])) /\ ("fl" \in DOMAIN P[i].x /\ P[i].x.fl # <<>> => Loads(P[i]) \/ P[i].op = "langs")
\* asked for again with no setting changed, nothing is read again
Once == \A i, j \in (H0 + 1)..Len(P) : (i < j /\ P[i].op = "get" /\ P[j].op = "get" /\ P[i].s = P[j].s /\ P[i].x.exc = 0 /\ \A k \in i..j : ~Resets(P[k])) => Files(j) = {}
\* one file for each directory and language at most
Few == \A i \in (H0 + 1)..Len(P) : Loads(P[i]) /\ P[i].x.exc = 0 => Len(P[i].x.fo) <= 4 /\ Len(P[i].x.fo) <= Len(P[i].x.fl) /\ Cardinality(Files(i)) <= Len(P[i].x.fl)
=============================================================================
