------------------------------- MODULE Big5MC -------------------------------
(* Two-byte characters in literals (C09).                                   *)
EXTENDS Drive
CONSTANTS MaxUnits, To

\* units: two-byte characters with an ASCII or other trail byte, real syntax, plain text
Wide == << <<165, 92>>, <<179, 92>>, <<164, 64>>, <<166, 114>>, <<164, 164>> >>
\* for a dictionary in Big5 nothing is converted: any trail byte
AnyTrail == << <<165, 92>>, <<129, 34>>, <<254, 110>>, <<200, 32>>, <<164, 164>>, <<165, 254>> >>
Plain == << <<97>>, <<92, 92>>, <<92, 34>>, <<92, 110>>, <<110>> >>
Units == (IF To = "BIG5" THEN AnyTrail ELSE Wide) \o Plain \o << <<165>> >>
NU == Len(Units)
\* what a unit denotes; the last one is a lone lead byte
Denote(u) == CASE u = <<92, 92>> -> <<92>> [] u = <<92, 34>> -> <<34>> [] u = <<92, 110>> -> <<10>> [] OTHER -> u
VARIABLES vU
Init == vU = <<>>
\* a lone lead byte only as the last unit (anywhere else it takes the next byte)
Next == Len(vU) < MaxUnits /\ (IF vU = <<>> THEN TRUE ELSE vU[Len(vU)] # NU) /\ \E i \in 1..NU : vU' = Append(vU, i)
Spec == Init /\ [][Next]_vU
Lone == IF vU = <<>> THEN FALSE ELSE vU[Len(vU)] = NU
Txt == Flatten(TLCEval([ i \in 1..Len(vU) |-> Units[vU[i]] ]))
q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
Lit == <<QUOTE>> \o Txt \o <<QUOTE>>
Hdr == << B("msgid ") \o <<QUOTE, QUOTE>>, B("msgstr ") \o q("Content-Type: text/plain; charset=Big5\\n"), <<>> >>
Places == << << B("msgid ") \o q("k"), B("msgstr ") \o Lit >>,
             << B("msgid ") \o q("k"), B("msgstr ") \o q("a"), Lit, q("z") >>,
             << B("msgid ") \o Lit, B("msgstr ") \o q("v") >>,
             << B("msgctxt ") \o Lit, B("msgid ") \o q("k"), B("msgstr ") \o q("v") >>,
             << B("msgid ") \o q("k"), B("msgid_plural ") \o Lit, B("msgstr[0] ") \o q("v"), B("msgstr[1] ") \o Lit >> >>
Z == << <<>>, B("msgid ") \o q("z"), B("msgstr ") \o q("zz") >>
F(i) == Joined(Hdr \o Places[i] \o Z)
Calls(i) == << CDict(i, B(To)), CParse(i, F(i)) >>
NoNl(i) == << CDict(9, B(To)), CParse(9, Joined(Hdr) \o Take(Joined(Places[i]), Len(Joined(Places[i])) - 1)) >>
Out == Show(Calls(1) \o Calls(2) \o Calls(3) \o Calls(4) \o Calls(5) \o NoNl(1) \o NoNl(2) \o << CTr(1, <<>>, B("k")), CTr(2, <<>>, B("k")) >>)
\* stated without the scanner
Means == Flatten(TLCEval([ i \in 1..Len(vU) |-> Denote(Units[vU[i]]) ]))
Text == LET d == Parse(F(1), -1, TRUE, TRUE, NewDict(B(To))).d
            m == Convert(MkConv(B("BIG5"), B(To)), Means)
        IN /\ d.ent[B("z")] = <<B("zz")>>
           /\ IF Lone \/ vU = <<>> THEN B("k") \notin DOMAIN d.ent ELSE d.ent[B("k")] = <<m.r>> /\ m.err = 0
=============================================================================
