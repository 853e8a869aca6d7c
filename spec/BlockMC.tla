------------------------------- MODULE BlockMC -------------------------------
(* Files as sequences of blocks separated by empty lines, well-formed and   *)
(* malformed in any order (C03).                                             *)
EXTENDS Drive
CONSTANTS MaxBlocks, MaxBad

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Open(k, s) == B(k) \o <<32, QUOTE>> \o B(s)
Good == << << K("msgid", "g1"), K("msgstr", "t1") >>, << B("#, fuzzy"), K("msgctxt", "c"), K("msgid", "g1"), K("msgid_plural", "g1s"), K("msgstr[0]", "p0"), K("msgstr[1]", "p1") >>,
           << K("msgid", "m1"), K("msgstr", "own") >>, << K("msgid", "g2"), B("msgstr ") \o q(""), q("t"), q("2") >> >>
GoodCalls(i) == CASE i = 1 -> << CAdd(1, <<>>, B("g1"), B("t1")) >> [] i = 2 -> << CAddP(1, <<B("c")>>, B("g1"), <<B("p0"), B("p1")>>) >>
                  [] i = 3 -> << CAdd(1, <<>>, B("m1"), B("own")) >> [] i = 4 -> << CAdd(1, <<>>, B("g2"), B("t2")) >>
\* each of these holds no complete entry
Bad == << << Open("msgid", "m1"), K("msgstr", "b") >>, << K("msgid", "m1") >>, << K("msgstr", "orphan") >>, << B("garbage") >>,
          << K("msgid", "m1"), B("garbage"), K("msgstr", "b") >>, << B("msgid m1"), K("msgstr", "b") >>, << K("msgid", "m1"), B("msgstr b") >>,
          << K("msgid", "m1"), Open("msgstr", "b") >>, << K("msgid", "m1"), K("msgid_plural", "p") >>, << K("msgid", "m1"), K("msgid_plural", "p"), K("msgstr", "x") >>,
          << K("msgid", "m1"), K("msgid_plural", "p"), K("msgstr[x]", "x") >>, << K("msgid", "m1"), K("msgid_plural", "p"), K("msgstr[0]", "ok"), Open("msgstr[1]", "bad") >>,
          << K("msgid", "m1"), K("msgid_plural", "p"), K("msgstr[0]", "ok"), B("junk") >>, << K("msgid", "m1"), K("msgid_plural", "p"), K("msgstr[10]", "ok") >>,
          << K("msgid", "m1"), K("msgid_plural", "p"), B("msgstr[0]") >>, << K("msgctxt", "c"), K("msgstr", "b") >>, << Open("msgctxt", "c") >>, << B("msgctxt") >>,
          << B("msgid") >>, << B("msgid ") >>, << Open("msgid", "") >>, << K("msgid", ""), B("msgstr") >>, << K("msgid", "m1"), Open("msgstr", "b\\") >>,
          << q("string only") >>, << B(" ") \o K("msgid", "m1"), K("msgstr", "b") >>, << K("msgid", "m1"), B("#, fuzzy") >>, << K("MSGID", "m1"), K("MSGSTR", "b") >>,
          << Open("msgid", "m1\\q"), K("msgstr", "b") >>, << K("msgid", "m1"), B("# comment"), K("msgstr", "b") >>, << K("msgid_plural", "p"), K("msgstr[0]", "x") >>,
          << K("msgid", "m1"), K("msgstr[0]", "x") >>, << B("msgid 'm1'"), B("msgstr 'b'") >>, << B("#, fuzzy"), K("msgid", "m1") >>, << K("msgctxt", "c"), B("#, fuzzy"), K("msgid", "m1") >>,
          << K("msgctxt", "c"), K("msgid", "m1") >>, << K("msgctxt", "c"), K("msgid", "m1"), K("msgid_plural", "p"), B("x") >>, << K("msgid", "m1"), K("msgid", "m1"), K("msgstr", "b") >>,
          << B("domain ") \o q("d") >>, << <<0>> >>, << <<239, 187>> \o K("msgid", "m1"), K("msgstr", "b") >>, << K("msgid", "m1"), K("msgid_plural", "p"), K("msgstr[]", "x") >> >>
Body(i) == IF i <= Len(Good) THEN Good[i] ELSE Bad[i - Len(Good)]
IsGood(i) == i <= Len(Good)
Sep == << <<>>, <<32>>, B("# -") >>
HdrB == << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=UTF-8\\n"), <<>> >>

VARIABLES vBl, vSep
Init == vBl = <<>> /\ vSep \in 1..Len(Sep)
NBad(b) == Cardinality({ i \in 1..Len(b) : ~IsGood(b[i]) })
Next == /\ Len(vBl) < MaxBlocks /\ \E i \in 1..(Len(Good) + Len(Bad)) : vBl' = Append(vBl, i)
        /\ NBad(vBl') <= MaxBad /\ UNCHANGED vSep
        /\ vSep > 1 => Len(vBl') <= 2
Spec == Init /\ [][Next]_<<vBl, vSep>>
Ls == FoldLeft(LAMBDA a, i : a \o Body(i) \o <<Sep[vSep]>>, HdrB, vBl)
\* only the good blocks count
Want == FoldLeft(LAMBDA d, i : IF IsGood(i) THEN LET c == GoodCalls(i)[1] IN
                   IF c.op = "add" THEN AddSingle(d, <<>>, c.id, c.s).d ELSE AddForms(d, <<c.cx>>, c.id, c.s).d ELSE d, NewDict(Kw.utf8), vBl)
Par == Parse(Joined(Ls), -1, TRUE, TRUE, NewDict(Kw.utf8))
OnlyGood == Par.d.ent = Want.ent /\ Par.d.ctx = Want.ctx
OneReport == Len(Par.errs) >= NBad(vBl)
Out == LET f == Joined(Ls) IN Show(<< CDict(1, Kw.utf8), CParse(1, f), CDict(2, Kw.utf8), CParse(2, Take(f, Len(f) - 1)) >>)
=============================================================================
