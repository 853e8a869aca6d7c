-------------------------------- MODULE LocMC --------------------------------
(* The process's locale (C29): every call of a list that covers all parts of *)
(* the library is made under one of the locales, after what it builds on has *)
(* been set up under another.  Nothing that is observed depends on either.    *)
EXTENDS Drive
CONSTANTS Locales

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Hdr(cs) == << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=" \o cs \o "\\n"), q("Plural-Forms: nplurals=2; plural=(n != 1);\\n"), <<>> >>
File(cs) == Joined(Hdr(cs) \o << K("msgid", "i"), B("msgstr ") \o <<QUOTE, 105, 253, 221, 228, QUOTE>>, <<>>, B("junk"), <<>>, K("msgid", "I"), K("msgid_plural", "Is"), K("msgstr[0]", "\\i"), K("msgstr[1]", "x") >>)
Dic(d, cs) == CDict(d, B(cs))
Prs(d, cs, pad) == CParse(d, File(cs)) @@ [ pad |-> pad, name |-> B("po/it.po") ]
Ic(f, t) == [ op |-> "ic", k |-> 1, from |-> B(f), to |-> B(t) ]
Cv(t) == [ op |-> "cv", k |-> 1, t |-> t ]
High == <<105, 73, 228, 253, 221, 105>>
PutF(n, cs) == [ op |-> "put", f |-> 1, dir |-> B("d"), name |-> n, mode |-> "ok", content |-> File(cs) ]
Qq(a) == [ op |-> "q", k |-> "tr", a |-> <<B(a)>>, n |-> 0 ]
Mgr(cs, ns) == << [ op |-> "fs", f |-> 1 ] >> \o [ i \in 1..Len(ns) |-> PutF(ns[i], "iso-8859-9") ] \o << Qq("i"), Qq("I"), [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> B(cs) ], [ op |-> "adddir", m |-> 1, dir |-> B("d"), prec |-> 0 ] >>
Get(l) == [ op |-> "get", m |-> 1, s |-> B(l) ]
Nm(s) == [ op |-> "name", s |-> s ]
Fn(s) == [ op |-> "fn", s |-> B(s) ]
\* what is set up, and what is done then
Jobs == << << << Dic(1, "utf-8") >>, << Prs(1, "iso-8859-1", 0), Prs(1, "ISO-8859-9", 1100), CTr(1, <<>>, B("i")), CTr(1, <<>>, B("missing")), CTrp(1, <<>>, B("I"), B("Is"), 1000000) >> >>,
           << << Dic(1, "iso-8859-1") >>, << Prs(1, "utf-8", 65530), CTr(1, <<>>, B("i")), Prs(1, "big5", 999) >> >>,
           << << Dic(1, "Iso-8859-15"), Prs(1, "Iso-8859-1", 7) >>, << Prs(1, "iso-8859-15", 1), CTrp(1, <<>>, B("I"), B("Is"), 1), [ op |-> "charset", d |-> 1 ] >> >>,
           << << Ic("iso-8859-1", "utf-8") >>, << Cv(High), Ic("ISO-8859-15", "Utf-8"), Cv(High), Ic("koi8-r", "iso-8859-1"), Cv(<<105, 73, 200>>), Ic("ascii", "utf-16le"), Cv(B("iI")) >> >>,
           << << Ic("utf-8", "ascii") >>, << Cv(<<105, 195, 164, 73>>), Ic("iso-8859-1", "ISO-8859-1"), Cv(High), Ic("no-such-i", "utf-8") >> >>,
           << <<>>, << Nm(B("ITALIAN")), Nm(B("italian")), Nm(B("Italian")), Nm(B("IRISH")), Nm(B("Icelandic")), Nm(B("FINNISH")), Nm(B("bRAZILIAN")), Nm(<<73, 253>>), Nm(<<105, 221>>), Nm(B("id")), Nm(B("it_IT")) >> >>,
           << <<>>, << Fn("it_it.po"), Fn("id_id.po"), Fn("it_IT.po"), [ op |-> "fn", s |-> <<105, 95, 105, 228, 105, 46, 112, 111>> ], [ op |-> "fn", s |-> <<105, 95, 105, 253, 105>> ] >> >>,
           << <<>>, << [ op |-> "env", s |-> B("it_IT.iso-8859-1@euro") ], [ op |-> "spec", l |-> B("it"), c |-> B("IT"), m |-> <<>> ], [ op |-> "match", a |-> B("it_IT"), b |-> B("it_CH") ] >> >>,
           << Mgr("utf-8", << B("it_it.po"), B("it.po"), B("id.po") >>), << Get("it_IT"), Get("it"), [ op |-> "langs", m |-> 1 ], [ op |-> "setcs", m |-> 1, cs |-> B("iso-8859-9") ], Get("it"), Get("id") >> >>,
           << Mgr("ascii", << B("it_it.po"), <<105, 116, 95, 105, 253, 46, 112, 111>> >>) \o << Get("it") >>, << Get("it"), [ op |-> "setlang", m |-> 1, s |-> B("it_IT") ], [ op |-> "cur", m |-> 1 ], [ op |-> "getlang", m |-> 1 ], [ op |-> "langs", m |-> 1 ] >> >>,
           << << [ op |-> "pf", k |-> 1, h |-> B("Plural-Forms: nplurals=2; plural=(n != 1);") ] >>, << [ op |-> "pf", k |-> 2, h |-> B("Plural-Forms: nplurals=1; plural=0;") ], [ op |-> "pe", k |-> 1, n |-> <<0, 1, 2, 1000, 1000001>> ] >> >>,
           << << [ op |-> "logtext" ], Dic(1, "utf-8"), CAdd(1, <<>>, B("i"), B("I")) >>, << CAdd(1, <<>>, B("i"), High), CAddP(1, <<B("I")>>, B("i"), << B("0"), B("1") >>), CAddP(1, <<B("I")>>, B("i"), << B("1000"), B("1") >>), CTr(1, <<B("I")>>, B("1234567")), CTrp(1, <<B("I")>>, B("i"), B("is"), 1234567) >> >> >>
VARIABLES vJ, vA, vB
Init == vJ \in 1..Len(Jobs) /\ vA = -1 /\ vB = -1
Next == vA = -1 /\ vJ' = vJ /\ vA' \in Locales /\ vB' \in Locales
Spec == Init /\ [][Next]_<<vJ, vA, vB>>
Loc(k) == << [ op |-> "locale", k |-> k ] >>
Under(a, b) == Loc(a) \o Jobs[vJ][1] \o Loc(b) \o Jobs[vJ][2] \o Loc(a) \o Jobs[vJ][2]
Seen(es) == LET p == Play(es) IN [ i \in 1..Len(SelectSeq(p, LAMBDA e : e.op # "locale")) |-> SelectSeq(p, LAMBDA e : e.op # "locale")[i].x ]
\* under all locales the same as under "C", and there is something to see
Same == vA = -1 \/ LET p == Seen(Under(vA, vB)) IN p = Seen(Under(0, 0)) /\ \E i \in 1..Len(p) : p[i] # EmptyFcn
Out == vA = -1 \/ Show(Under(vA, vB))
=============================================================================
