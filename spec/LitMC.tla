-------------------------------- MODULE LitMC --------------------------------
(* String literals (C02): every short text over an alphabet of significant  *)
(* bytes, as it stands between the quotes (Raw) and escaped (Round).        *)
EXTENDS Drive
CONSTANTS Mode, MaxLen

RawBytes == <<97, BACKSLASH, QUOTE, 110, 32, 0>>
RoundBytes == <<97, 7, 8, 9, 10, 11, 13, QUOTE, BACKSLASH, 110, 255, 0>>
Tokens == CASE Mode = "raw" -> [ i \in 1..Len(RawBytes) |-> <<RawBytes[i]>> ]
            [] Mode = "round" -> [ i \in 1..Len(RoundBytes) |-> <<RoundBytes[i]>> ]
            [] Mode = "bytes" -> [ i \in 1..(2 * 255) |-> LET c == (i - 1) % 255 IN
                   LET b == IF c >= 10 THEN c + 1 ELSE c IN IF i > 255 THEN <<BACKSLASH, b>> ELSE <<b>> ]
Esc1(c) == CASE c = 10 -> B("\\n") [] c = 34 -> B("\\\"") [] c = 92 -> B("\\\\") [] c = 9 -> B("\\t")
                  [] c = 13 -> B("\\r") [] c = 7 -> B("\\a") [] c = 8 -> B("\\b") [] c = 11 -> B("\\v") [] OTHER -> <<c>>
EscapeText(t) == Flatten(TLCEval([ i \in 1..Len(t) |-> Esc1(t[i]) ]))

\* what a literal denotes, stated by recursion on the text behind the quote: [ok, t, w]
RECURSIVE Denotes(_)
Denotes(r) ==
  IF r = <<>> THEN [ ok |-> FALSE, t |-> <<>>, w |-> 0 ]
  ELSE IF r[1] = QUOTE THEN [ ok |-> TRUE, t |-> <<>>, w |-> Cardinality({ i \in 2..Len(r) : ~IsSpace(r[i]) }) ]
  ELSE IF r[1] # BACKSLASH THEN LET x == Denotes(Tail(r)) IN [ x EXCEPT !.t = <<r[1]>> \o @ ]
  ELSE IF Len(r) = 1 THEN [ ok |-> FALSE, t |-> <<>>, w |-> 0 ]
  ELSE LET x == Denotes(SubSeq(r, 3, Len(r)))
           e == CASE r[2] = 110 -> <<10>> [] r[2] = 116 -> <<9>> [] r[2] = 114 -> <<13>> [] r[2] = 97 -> <<7>> [] r[2] = 98 -> <<8>>
                  [] r[2] = 118 -> <<11>> [] r[2] = 34 -> <<34>> [] r[2] = 92 -> <<92>> [] OTHER -> <<92, r[2]>>
       IN [ x EXCEPT !.t = e \o @, !.w = @ + (IF Len(e) = 2 THEN 1 ELSE 0) ]

VARIABLES vLit
Init == vLit = <<>>
Next == Len(vLit) < MaxLen /\ \E i \in 1..Len(Tokens) : vLit' = vLit \o Tokens[i]
Spec == Init /\ [][Next]_vLit
\* "bytes": embed each token in some text once
Body == IF Mode = "round" THEN EscapeText(vLit) ELSE IF Mode = "bytes" THEN B("<") \o vLit \o B(">") ELSE vLit
Ln == Body \o <<QUOTE>>

ScanIsDenotation == LET s == ScanLit(<<QUOTE>> \o Ln, 1, FALSE) d == Denotes(Ln) IN
                    s.ok = d.ok /\ (s.ok => s.out = d.t) /\ (s.ok => (s.w > 0) = (d.w > 0))
RoundTrip == Mode = "round" => LET s == ScanLit(<<QUOTE>> \o Ln, 1, FALSE) IN s.ok /\ s.out = vLit /\ s.w = 0

Kq(k) == B(k) \o <<32, QUOTE>>
Qt(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
Places == << << Kq("msgid") \o B("k") \o <<QUOTE>>, Kq("msgstr") \o Ln >>,
             << Kq("msgid") \o Ln, B("msgstr ") \o Qt("v") >>,
             << Kq("msgctxt") \o Ln, B("msgid ") \o Qt("k"), B("msgstr ") \o Qt("v") >>,
             << B("msgid ") \o Qt("k"), Kq("msgid_plural") \o Ln, B("msgstr[0] ") \o Qt("v") >>,
             << B("msgid ") \o Qt("k"), B("msgid_plural ") \o Qt("k"), Kq("msgstr[0]") \o Ln, B("msgstr[1] ") \o Qt("v") >>,
             << B("msgid ") \o Qt("k"), B("msgstr ") \o Qt("0"), <<32, 32, QUOTE>> \o Ln, Qt("9") >>,
             << B("msgid"), B("msgstr ") \o Ln, B("msgid ") \o Ln >>,
             << B("msgid ") \o Qt("k"), B("msgstr ") \o Ln >>,
             << B("msgid ") \o Qt("k"), B("msgstr") \o <<9, QUOTE>> \o Ln >> >>
After == << <<>>, B("msgid ") \o Qt("z"), B("msgstr ") \o Qt("zz") >>
Out == Show(Flatten(TLCEval([ i \in 1..Len(Places) |-> << CDict(i, Kw.utf8), CParse(i, Joined(Places[i] \o After)) >> ]))
            \o << CTr(1, <<>>, B("k")), CTr(6, <<>>, B("k")), CTr(1, <<>>, B("z")) >>)
=============================================================================
