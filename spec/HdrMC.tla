-------------------------------- MODULE HdrMC --------------------------------
(* Headers (C07): every choice and order of fields, several headers.        *)
EXTENDS Drive
CONSTANTS MaxFields, Form

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Fields == << B("Content-Type: text/plain; charset=ISO-8859-1"), B("Content-Type: text/plain; charset=CHARSET"), B("Content-Type: text/plain; charset=koi8-r"),
             B("Content-Type: text/plain; charset=Utf-8"), B("Content-Type: text/html; charset=KOI8-R"), B("Plural-Forms: nplurals=2; plural=(n != 1);"), B("Plural-Forms: nplurals=1;plural=0;"),
             B("Plural-Forms: nplurals=2; plural=n!=1;"), B("Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;"), B("Language: de"), B("X-Content-Type: text/plain; charset=KOI8-R"), B("content-type: text/plain; charset=KOI8-R"),
             B("Content-Type: text/plain; charset=FOO"), B("") >>
\* how the header is written: 1 one literal per field, 2 one literal, 3 the last field not terminated, 4 fuzzy, 5 with CR LF
Esc(t) == Flatten(TLCEval([ i \in 1..Len(t) |-> IF t[i] = 10 THEN B("\\n") ELSE <<t[i]>> ]))
Quoted(t) == <<QUOTE>> \o Esc(t) \o <<QUOTE>>
HdrLs(fs) ==
  CASE Form = 2 -> << K("msgid", ""), B("msgstr ") \o Quoted(Flatten(TLCEval([ i \in 1..Len(fs) |-> Append(Fields[fs[i]], 10) ]))) >>
    [] Form = 3 -> << K("msgid", ""), K("msgstr", "") >> \o TLCEval([ i \in 1..Len(fs) |-> Quoted(IF i = Len(fs) THEN Fields[fs[i]] ELSE Append(Fields[fs[i]], 10)) ])
    [] Form = 4 -> << B("#, fuzzy"), K("msgid", ""), K("msgstr", "") >> \o TLCEval([ i \in 1..Len(fs) |-> Quoted(Append(Fields[fs[i]], 10)) ])
    [] Form = 5 -> << K("msgid", ""), K("msgstr", "") >> \o TLCEval([ i \in 1..Len(fs) |-> Append(Quoted(Append(Fields[fs[i]], 10)), 13) ])
    [] OTHER -> << K("msgid", ""), K("msgstr", "") >> \o TLCEval([ i \in 1..Len(fs) |-> Quoted(Append(Fields[fs[i]], 10)) ])
Entries(n) == << <<>>, K("msgid", n), B("msgstr ") \o <<QUOTE, 195, 164, QUOTE>>, <<>>, K("msgctxt", ""), K("msgid", ""), K("msgstr", n), <<>>,
                 K("msgid", "p" \o n), K("msgid_plural", "ps"), B("msgstr[0] ") \o <<QUOTE, 195, 188, QUOTE>>, K("msgstr[1]", "q"), <<>> >>
VARIABLES vFs, vFs2
Init == vFs = <<>> /\ vFs2 \in {0, 1, 3, 6, 7, 9}
Next == Len(vFs) < MaxFields /\ (vFs2 = 0 \/ Len(vFs) < MaxFields - 1) /\ (\E i \in 1..Len(Fields) : vFs' = Append(vFs, i)) /\ UNCHANGED vFs2
Spec == Init /\ [][Next]_<<vFs, vFs2>>
File1 == Joined(HdrLs(vFs) \o Entries("k"))
Second == IF vFs2 = 0 THEN <<>> ELSE Joined(HdrLs(<<vFs2>>) \o Entries("l"))
Probe(d) == << CTrp(d, <<>>, B("pk"), B("ps"), 0), CTrp(d, <<>>, B("pk"), B("ps"), 1), CTr(d, <<>>, B("k")), CTr(d, <<>>, B("l")), CTr(d, <<>>, <<>>) >>
\* a second header: in the same file, and in another file for the same dictionary
Out == Show(<< CDict(1, Kw.utf8), CParse(1, File1 \o Second) >> \o Probe(1) \o (IF vFs2 = 0 THEN << CDict(3, Kw.utf8), CParse(3, Joined(Entries("k"))) >> \o Probe(3)
            ELSE << CDict(2, Kw.utf8), CParse(2, File1), CParse(2, Second) >> \o Probe(2)))
\* stated without the parser
LastOf(S) == IF \E i \in 1..Len(vFs) : vFs[i] \in S THEN vFs[CHOOSE i \in 1..Len(vFs) : vFs[i] \in S /\ \A j \in 1..Len(vFs) : vFs[j] \in S => j <= i] ELSE 0
FirstOf(S) == IF \E i \in 1..Len(vFs) : vFs[i] \in S THEN vFs[CHOOSE i \in 1..Len(vFs) : vFs[i] \in S /\ \A j \in 1..Len(vFs) : vFs[j] \in S => j >= i] ELSE 0
P == Load(File1)
Governs == Form # 3 =>
  LET cs == LastOf({1, 2, 3, 4, 13}) pl == FirstOf({6, 7, 8}) IN
  /\ P.pl = (CASE pl = 0 -> 0 [] pl \in {6, 8} -> 2 [] pl = 7 -> 1)
  /\ cs # 13 => P.ent[B("k")] = << CASE cs \in {0, 2, 4} -> <<195, 164>> [] cs = 1 -> <<195, 131, 194, 164>> [] cs = 3 -> Convert(MkConv(B("KOI8-R"), Kw.utf8), <<195, 164>>).r >>
  /\ cs # 13 => P.ctx[<<<<>>, <<>>>>] = <<B("k")>>
=============================================================================
