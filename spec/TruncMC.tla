------------------------------- MODULE TruncMC -------------------------------
(* Files cut off, or read with a failure, at every byte (C04), and short    *)
(* token soups.                                                             *)
EXTENDS Drive
CONSTANTS Mode, MaxLen

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
HdrF == Joined(<< K("msgid", ""), K("msgstr", ""), q("Content-Type: text/plain; charset=UTF-8\\n"), q("Plural-Forms: nplurals=2; plural=n != 1;\\n"), <<>> >>)
Files == <<
  HdrF \o Joined(<< B("# c"), K("msgid", "a"), K("msgstr", "t\\n\\\\"), <<>>, B("#, fuzzy"), K("msgctxt", "c"), K("msgid", "b"), q("b"), K("msgid_plural", "bs"), K("msgstr[0]", "x"), K("msgstr[1]", "y"), <<>>, K("msgid", "a"), K("msgstr", "again") >>),
  Kw.bom \o Joined(<< K("msgid", "a") \o <<13>>, B("msgstr ") \o <<QUOTE, 195, 164, 226, 130, 172, QUOTE, 13>>, <<13>>, B("junk"), <<>>, K("msgid", "b"), B("msgstr ") \o q("y") \o B(" z") >>),
  Joined(<< K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=BIG5\\n"), <<>>, K("msgid", "a"), B("msgstr ") \o <<QUOTE, 179, 92, 92, 110, 165, 92, QUOTE>>, <<>>, K("msgid", "b"), B("msgstr ") \o <<QUOTE, 164, 164, QUOTE>> >>),
  Joined(<< K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=ISO-2022-JP\\n"), <<>>, K("msgid", "a"), B("msgstr ") \o <<QUOTE, 27, 36, 66, 70, 124, 27, 40, 66, QUOTE>>, <<>>, K("msgid", "b"), K("msgstr", "x") >>) >>
Tokens == << B("msgid "), B("msgstr "), B("msgstr["), B("0] "), B("msgid_plural "), B("msgctxt "), <<QUOTE>>, <<BACKSLASH>>, <<10>>, B("a"), B("#"), B(" "), <<0>>, <<255>>, <<13>>, Kw.bom, <<179>>, B(", fuzzy") >>
\* complete entries in front of the soups, one of them Big5
Fronts == << <<>>, Joined(<< K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=big5\\n") >>), Joined(<< K("msgid", "k"), K("msgid_plural", "k"), K("msgstr[0]", "v") >>) >>

VARIABLES vF, vCut, vKind, vSoup
vars == <<vF, vCut, vKind, vSoup>>
Init == IF Mode = "cut" THEN /\ vF \in 1..Len(Files) /\ vCut = 0 /\ vKind \in {"end", "fail"} /\ vSoup = <<>>
        ELSE /\ vF \in 1..Len(Fronts) /\ vCut = 0 /\ vKind = "soup" /\ vSoup = <<>>
Next == IF Mode = "cut" THEN vCut < Len(Files[vF]) /\ vCut' = vCut + 1 /\ UNCHANGED <<vF, vKind, vSoup>>
        ELSE vCut < MaxLen /\ vCut' = vCut + 1 /\ (\E i \in 1..Len(Tokens) : vSoup' = vSoup \o Tokens[i]) /\ UNCHANGED <<vF, vKind>>
Spec == Init /\ [][Next]_vars
Text == CASE vKind = "end" -> Take(Files[vF], vCut) [] vKind = "fail" -> Files[vF] [] vKind = "soup" -> Fronts[vF] \o vSoup
At0 == IF vKind = "fail" THEN vCut ELSE -1
New == NewDict(Kw.utf8)
Par == Parse(Text, At0, TRUE, TRUE, New)
Terminates == Par.pc = "done"
\* a missing final newline makes no difference
FinalNewline == vKind # "fail" /\ Text # <<>> /\ Text[Len(Text)] # NL =>
                  LET p == Parse(Append(Text, NL), -1, TRUE, TRUE, New) IN p.d = Par.d /\ p.errs = Par.errs /\ p.warns = Par.warns
\* what was complete before the cut stays
RECURSIVE LastBlank(_, _)
LastBlank(t, n) == IF n < 2 THEN 0 ELSE IF t[n] = NL /\ t[n-1] = NL THEN n ELSE LastBlank(t, n - 1)
Prefix == vKind = "end" /\ vF = 1 =>
            LET k == LastBlank(Text, Len(Text))
                d == Load(Take(Text, k))
            IN \A i \in DOMAIN d.ent : i \in DOMAIN Par.d.ent /\ (Par.d.ent[i] = d.ent[i] \/ i = B("a"))
\* a failing stream is like one that ends behind its last complete line
FailsLikeCut == vKind = "fail" => LET p == Parse(Joined(LinesOf(Files[vF], vCut).lines), -1, TRUE, TRUE, New) IN p.d.ent = Par.d.ent /\ p.d.ctx = Par.d.ctx
Out == Show(<< CDict(1, Kw.utf8), CParseAt(1, Text, At0), CTr(1, <<>>, B("a")), CTr(1, <<>>, B("b")), CTrp(1, <<B("c")>>, B("bb"), B("bs"), 2) >>)
=============================================================================
