--------------------------------- MODULE ReMC ---------------------------------
(* Calls within callbacks (C30): while a call is at work and calls back (for  *)
(* a message, a listing, a file, a read, an entry), every pair of calls of    *)
(* ReKinds is made there.  Inside they give what they give alone, outside     *)
(* nothing changes.                                                          *)
EXTENDS Drive
CONSTANTS Pairs

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
FileOf(pl, x) == Joined(<< K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=ISO-8859-1\\n"), q(pl \o "\\n"), <<>>, K("msgid", "a"), B("msgstr ") \o <<QUOTE>> \o x \o <<QUOTE>>, <<>>,
                  K("msgctxt", "c"), K("msgid", "p"), K("msgid_plural", "ps"), K("msgstr[0]", "\\q"), K("msgstr[1]", "P1"), <<>>, K("msgid", "bad"), B("junk"), <<>>, K("msgid", "z"), K("msgstr", "Z") >>)
F1 == FileOf("Plural-Forms: nplurals=2; plural=(n != 1);", <<228>>)
F2 == FileOf("Plural-Forms: nplurals=3; plural=n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;", B("second"))
Text == Joined(<< K("msgid", "within"), K("msgstr", "\\q \\n"), <<>>, B("msgid"), <<>>, K("msgid", "x"), K("msgstr", "X") >>)
C(k, a) == [ k |-> k, a |-> a ]
Kinds == << C("env", B("de_AT.UTF-8")), C("name", B("german")), C("plural", B("Plural-Forms: nplurals=1; plural=0;")), C("parse", Text), C("latin", F1), C("conv", <<97, 195, 164, 98>>), C("conv", <<230, 151, 165>>),
            C("fn", B("de_at.po")), C("dict", B("m1")), C("mgr", F2), C("langs", F1), C("own", B("fr")), C("own", B("sr_RS")), C("own", B("de")), C("own", B("de_AT")), C("own", <<>>) >>
NK == Len(Kinds)
PutF(d, n, c) == [ op |-> "put", f |-> 1, dir |-> B(d), name |-> B(n), mode |-> "ok", content |-> c ]
Qq(k, a, n) == [ op |-> "q", k |-> k, a |-> a, n |-> n ]
Get(l) == [ op |-> "get", m |-> 1, s |-> B(l) ]
Setup == << [ op |-> "fs", f |-> 1 ], PutF("d", "de.po", F1), PutF("d", "xx.po", F1), PutF("d", "de_AT.po", F2), PutF("d", "fr.po", F2), PutF("e", "de.po", F2), PutF("e", "sr.po", F1),
            Qq("tr", <<B("a")>>, 0), Qq("tr", <<B("none")>>, 0), Qq("trcp", <<B("c"), B("p"), B("ps")>>, 2),
            [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ], [ op |-> "adddir", m |-> 1, dir |-> B("d"), prec |-> 0 ], [ op |-> "adddir", m |-> 1, dir |-> B("e"), prec |-> 0 ], CDict(1, Kw.utf8),
            [ op |-> "ic", k |-> 1, from |-> Kw.utf8, to |-> B("ISO-8859-1") ] >>
Work == << CParse(1, F1), CTr(1, <<>>, B("unknown")), CAdd(1, <<>>, B("a"), B("other")), CAddP(1, <<B("c")>>, B("p"), << B("1"), B("2") >>), CTrp(1, <<B("c")>>, B("p"), B("ps"), 2), [ op |-> "dump", d |-> 1 ],
           [ op |-> "cv", k |-> 1, t |-> <<97, 255, 98>> ], Get("de_AT"), [ op |-> "langs", m |-> 1 ], [ op |-> "setlang", m |-> 1, s |-> B("sr") ], [ op |-> "cur", m |-> 1 ], Get("de"), Get("fr"), Get("de_AT") >>
Reset == << [ op |-> "setcs", m |-> 1, cs |-> B("ISO-8859-1") ] >>
VARIABLES vA, vB
Init == vA = 0 /\ vB = 0
Next == vA = 0 /\ vA' \in 1..NK /\ vB' \in IF Pairs THEN {0} \cup 1..NK ELSE {0, 1 + (vA' % NK), 1 + ((vA' + 6) % NK)}
Spec == Init /\ [][Next]_<<vA, vB>>
Re == [ op |-> "reent", calls |-> << Kinds[vA] >> \o IF vB = 0 THEN <<>> ELSE << Kinds[vB] >> ]
Out == vA = 0 \/ Show(Setup \o << Re >> \o Work \o Reset \o SubSeq(Work, 8, Len(Work)))
NoRe(x) == [ f \in DOMAIN x \ {"re", "altered", "fo", "fl"} |-> x[f] ]
Bare(es) == LET p == Play(es) IN TLCEval([ i \in 1..Len(p) |-> NoRe(p[i].x) ])
\* outside: as if nothing had been called within; inside: what the call gives alone
Alike == vA = 0 \/ /\ Bare(Setup \o << Re >> \o Work) = Bare(Setup \o << [ op |-> "reent", calls |-> <<>> ] >> \o Work)
                   /\ Kinds[vA].k = "own" \/ \A i \in Len(Setup) + 2 .. Len(Setup) + 1 + Len(Work) : Play(Setup \o << Re >> \o Work)[i].x.re[1] = ThrCall(Kinds[vA])
\* the manager at work gives unrelated languages what a fresh one gives
Fresh == vA = 0 \/ Kinds[vA].k # "own" \/ Kinds[vA].a \notin {B("fr"), B("sr_RS")} \/
         LET s == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup \o << Re >>)
             l == FromEnv(Kinds[vA].a)
         IN Apply(s, Get("de_AT")).x.re[1].ent = EntSet(FreshLoad(FsOf(s, s.mgr[1]), s.mgr[1], l).m.cache[l])
=============================================================================
