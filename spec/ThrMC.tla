-------------------------------- MODULE ThrMC --------------------------------
(* Which calls meet in which threads (C25): every pair of kinds of calls     *)
(* as the first calls of a process, and mixtures of all of them.  What a     *)
(* thread has to get is what the specification gives for the call alone.     *)
EXTENDS Drive
CONSTANTS Threads, Repeat

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
File(pl, x) == Joined(<< K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=UTF-8\\n"), q(pl \o "\\n"), <<>>, K("msgid", "a"), B("msgstr ") \o <<QUOTE>> \o x \o <<QUOTE>>, <<>>,
                  K("msgctxt", "c"), K("msgid", "p"), K("msgid_plural", "ps"), K("msgstr[0]", "\\q"), K("msgstr[1]", "P1"), <<>>, K("msgid", "bad"), B("junk"), <<>>, K("msgid", "z"), K("msgstr", "Z") >>)
F1 == File("Plural-Forms: nplurals=2; plural=(n != 1);", <<195, 164>>)
F2 == File("Plural-Forms: nplurals=3; plural=n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;", B("second"))
C(k, a) == [ k |-> k, a |-> a ]
Kinds == << C("env", B("de_AT.UTF-8")), C("env", B("sr_RS@latin")), C("name", B("german")), C("name", B("No_Such")), C("plural", B("Plural-Forms: nplurals=2; plural=(n != 1);")), C("plural", B("Plural-Forms: nplurals=1; plural=0;")),
            C("parse", F1), C("parse", F2), C("latin", F1), C("conv", <<97, 195, 164, 98>>), C("conv", <<230, 151, 165>>), C("fn", B("de_at.po")), C("fn", B("sr_rs@latin.po")), C("dict", B("m1")), C("dict", B("m2")),
            C("mgr", F1), C("mgr", F2), C("langs", F1), C("unix", F1), C("unix", F2) >>
NK == Len(Kinds)
VARIABLES vA, vB
Init == vA = 0 /\ vB = 0
\* pairs, and (vB = 0) everything starting at vA
Next == vA = 0 /\ vA' \in 1..NK /\ vB' \in {0} \cup {vA'} \cup (vA'..NK)
Spec == Init /\ [][Next]_<<vA, vB>>
Calls == IF vB > 0 THEN (IF vA = vB THEN << Kinds[vA] >> ELSE << Kinds[vA], Kinds[vB] >>) ELSE TLCEval([ i \in 1..NK |-> Kinds[((vA + i - 2) % NK) + 1] ])
Thr == [ op |-> "thr", nt |-> Threads, rep |-> IF vB > 0 THEN 2 ELSE Repeat, calls |-> Calls ]
Out == vA = 0 \/ Show(<< Thr >>)
\* a call alone, whatever is called besides it
Alone == vA = 0 \/ \A i \in 1..Len(Calls) : Apply(S0, Thr).x.thr[i] = ThrCall(Calls[i])
=============================================================================
