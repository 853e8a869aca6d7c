------------------------------- MODULE IndepMC -------------------------------
(* Objects do not influence each other (C32): two jobs on objects of their   *)
(* own, in every interleaving with up to Switches changes from one to the    *)
(* other; each sees what it sees alone.                                      *)
EXTENDS Drive
CONSTANTS Switches

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Hdr(cs, pl) == << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=" \o cs \o "\\n"), q("Plural-Forms: " \o pl \o "\\n"), <<>> >>
P2 == "nplurals=2; plural=(n != 1);"
P1 == "nplurals=1; plural=0;"
Big == Joined(Hdr("BIG5", P1) \o << K("msgid", "a"), B("msgstr ") \o <<QUOTE, 179, 92, QUOTE>>, <<>>, K("msgid", "p"), K("msgid_plural", "ps"), K("msgstr[0]", "x") >>)
\* without a header: texts as they are, a backslash is an escape
Bare == Joined(<< K("msgid", "a"), B("msgstr ") \o <<QUOTE, 179, 92, 92, QUOTE>>, <<>>, B("#, fuzzy"), K("msgid", "f"), K("msgstr", "F") >>)
Utf == Joined(Hdr("UTF-8", P2) \o << K("msgid", "a"), B("msgstr ") \o <<QUOTE, 195, 164, QUOTE>>, <<>>, B("msgid  ") \o q("p"), K("msgid_plural", "ps"), K("msgstr[0]", "x"), K("msgstr[1]", "y"), <<>>, B("#, fuzzy"), K("msgid", "f"), K("msgstr", "F") >>)
Lat == Joined(Hdr("ISO-8859-1", P2) \o << K("msgid", "a"), B("msgstr ") \o <<QUOTE, 228, QUOTE>> >>)
Broken == Joined(<< K("msgid", "a"), B("msgstr ") \o <<QUOTE>> \o B("never closed") >>)
Setpl(o, s) == [ op |-> "setpl", d |-> o, h |-> B("Plural-Forms: " \o s) ]
Fs1(o, c) == << [ op |-> "fs", f |-> o ], [ op |-> "put", f |-> o, dir |-> B("d"), name |-> B("de.po"), mode |-> "ok", content |-> c ] >>
Mgr(o, cs) == [ op |-> "mgr", m |-> o, f |-> o, cs |-> B(cs) ]
Add(o) == [ op |-> "adddir", m |-> o, dir |-> B("d"), prec |-> 0 ]
Get(o, l) == [ op |-> "get", m |-> o, s |-> B(l) ]
CurM(o) == [ op |-> "cur", m |-> o ]
SL(o, l) == [ op |-> "setlang", m |-> o, s |-> B(l) ]
Ic(o, f, t) == [ op |-> "ic", k |-> o, from |-> B(f), to |-> B(t) ]
Cv(o, t) == [ op |-> "cv", k |-> o, t |-> t ]
\* what object o is made of, and the job on it
Setup(j, o) ==
  CASE j \in {1, 2, 3} -> << CDict(o, IF j = 2 THEN B("ISO-8859-1") ELSE Kw.utf8) >>
    [] j = 4 -> Fs1(o, Utf) \o << Mgr(o, "UTF-8"), Add(o) >>
    [] j = 5 -> Fs1(o, Lat) \o << Mgr(o, "ISO-8859-1"), Add(o) >>
    [] j = 6 -> << Ic(o, "UTF-16", "UTF-8") >>
    [] j \in {7, 8} -> << >>
Job(j, o) ==
  CASE j = 1 -> << CParse(o, Big), CParse(o, Bare), CTr(o, <<>>, B("a")), CTrp(o, <<>>, B("p"), B("ps"), 2) >>
    [] j = 2 -> << CParse(o, Utf), CTr(o, <<>>, B("a")), CParse(o, Broken), CTrp(o, <<>>, B("p"), B("ps"), 2) >>
    [] j = 3 -> << Setpl(o, P2), CAddP(o, <<>>, B("p"), << B("1"), B("2") >>), CAdd(o, <<B("c")>>, B("p"), B("C")), CTrp(o, <<>>, B("p"), B("ps"), 5) >>
    [] j = 4 -> << [ op |-> "setfuzzy", m |-> o, v |-> 0 ], Get(o, "de"), SL(o, "de_AT"), CurM(o) >>
    [] j = 5 -> << Get(o, "de_AT"), [ op |-> "setcs", m |-> o, cs |-> Kw.utf8 ], [ op |-> "langs", m |-> o ], Get(o, "de") >>
    [] j = 6 -> << Cv(o, <<254, 255, 0, 97>>), Cv(o, <<97, 0>>), Ic(o, "ISO-8859-1", "UTF-8"), Cv(o, <<228>>) >>
    [] j = 7 -> << [ op |-> "pf", k |-> o, h |-> B("Plural-Forms: nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2;") ], [ op |-> "pe", k |-> o, n |-> <<0, 1, 11, 21>> ], [ op |-> "pf", k |-> o, h |-> B("Plural-Forms: " \o P2) ], [ op |-> "pe", k |-> o, n |-> <<0, 1, 2>> ] >>
    [] j = 8 -> << [ op |-> "wear", n |-> 1 ], [ op |-> "wear", n |-> 0 ], [ op |-> "wear", n |-> 0 ], [ op |-> "wear", n |-> 0 ] >> \* very much else
NJobs == 8
VARIABLES vA, vB, vWho, vSw
Init == vA \in 1..NJobs /\ vB \in vA..NJobs /\ vWho = <<>> /\ vSw = 0
N(w, who) == Cardinality({ i \in 1..Len(who) : who[i] = w })
Turn(w) == /\ N(w, vWho) < 4
           /\ LET sw == IF vWho = <<>> \/ vWho[Len(vWho)] = w THEN vSw ELSE vSw + 1 IN sw <= Switches /\ vSw' = sw
           /\ vWho' = Append(vWho, w) /\ UNCHANGED <<vA, vB>>
Next == \E w \in {1, 2} : Turn(w)
Spec == Init /\ [][Next]_<<vA, vB, vWho, vSw>>
JobOf(w) == IF w = 1 THEN vA ELSE vB
Woven == TLCEval([ i \in 1..Len(vWho) |-> Job(JobOf(vWho[i]), vWho[i])[N(vWho[i], SubSeq(vWho, 1, i))] ])
Done == Len(vWho) = 8
SetBoth == Setup(vA, 1) \o Setup(vB, 2)
Out == Done => Show(SetBoth \o Woven)
\* each sees what it sees alone
Apart == Done => LET h == SubSeq(Play(SetBoth \o Woven), Len(SetBoth) + 1, Len(SetBoth) + 8) IN
           \A w \in {1, 2} :
             LET alone == Play(Setup(JobOf(w), w) \o Job(JobOf(w), w))
                 mine == SelectSeq(TLCEval([ i \in 1..8 |-> [ w |-> vWho[i], x |-> h[i].x ] ]), LAMBDA r : r.w = w)
             IN \A i \in 1..4 : LET a == alone[Len(Setup(JobOf(w), w)) + i].x b == mine[i].x IN \A f \in DOMAIN a : f \in DOMAIN b /\ b[f] = a[f]
=============================================================================
