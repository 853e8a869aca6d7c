-------------------------------- MODULE CatMC --------------------------------
(* Catalogues written out as files in many layouts and read back (C01).     *)
(* What the file means is stated without any parser: Meaning.               *)
EXTENDS Drive
CONSTANTS MaxEntries, LayoutKind

\* a message: context (<<>> or <<c>>), msgid, plural msgid (<<>>: none) and texts
M(cx, id, pl, s) == [ cx |-> cx, id |-> id, pl |-> pl, s |-> s ]
Ta == B("a")
Tb == B("b") \o <<10, 34, 92>> \o B("n # ")
Ue == <<195, 164, 9, 13, 7, 8, 11>>
Msgs == << M(<<>>, Ta, <<>>, <<B("ta")>>), M(<<>>, Tb, <<>>, <<Ue>>), M(<< <<>> >>, Ta, <<>>, <<B("ea")>>), M(<<B("c")>>, Ta, <<>>, <<B("msgid ") \o <<34>>>>),
           M(<<>>, Ta, B("as"), <<B("p0"), B("p1")>>), M(<<B("c")>>, Tb, Tb \o Ta, <<Ue, Ta, B("x y")>>), M(<<B("c")>>, <<>>, <<>>, <<B("ce")>>),
           M(<<>>, B("#"), B("##"), <<Ta>>), M(<<B("c")>>, Ta, B("as"), <<<<>>, B("q1")>>), M(<<>>, B("u"), <<>>, <<<<>>>>), M(<<>>, B("w"), B("ws"), << <<>>, <<>> >>) >>

\* layouts
Base == [ com |-> <<>>, split |-> 0, ind |-> <<>>, trail |-> <<>>, crlf |-> FALSE, bom |-> FALSE, fin |-> TRUE, sep |-> << <<>> >>, hdr |-> TRUE ]
Coms == { <<B("# note")>>, <<B("#: f.c:1"), B("#. auto"), B("#, c-format")>>, <<B("#| msgid ") \o <<34, 120, 34>>, B("#~ msgid")>>, <<B("#")>>, <<B("# "), B("#, fuzzy")>> }
Seps == { << <<>>, <<>> >>, <<B("  ")>>, <<B("# between")>>, <<<<9>>>>, <<<<>>, B("#"), <<>> >> }
L1 == { [ Base EXCEPT !.com = c ] : c \in Coms } \cup { [ Base EXCEPT !.split = n ] : n \in 1..3 }
      \cup { [ Base EXCEPT !.split = n, !.ind = i ] : n \in 1..3, i \in {<<9>>, <<32, 32>>, <<32, 32, 32, 32>>} } \cup { [ Base EXCEPT !.trail = t ] : t \in {<<32>>, <<9, 32>>} }
      \cup { [ Base EXCEPT !.crlf = TRUE ], [ Base EXCEPT !.bom = TRUE ], [ Base EXCEPT !.fin = FALSE ], [ Base EXCEPT !.hdr = FALSE ] }
      \cup { [ Base EXCEPT !.sep = s ] : s \in Seps } \cup { Base }
Flags(l) == { l, [ l EXCEPT !.crlf = TRUE ], [ l EXCEPT !.bom = TRUE ], [ l EXCEPT !.fin = FALSE ], [ l EXCEPT !.hdr = FALSE ],
              [ l EXCEPT !.crlf = TRUE, !.fin = FALSE ], [ l EXCEPT !.bom = TRUE, !.hdr = FALSE ], [ l EXCEPT !.crlf = TRUE, !.split = 2 ], [ l EXCEPT !.hdr = FALSE, !.bom = TRUE, !.crlf = TRUE, !.fin = FALSE ] }
Layouts == IF LayoutKind = 1 THEN L1 ELSE UNION { Flags(l) : l \in L1 }

Units(t) == TLCEval([ i \in 1..Len(t) |-> CASE t[i] = 10 -> B("\\n") [] t[i] = 34 -> B("\\\"") [] t[i] = 92 -> B("\\\\") [] t[i] = 9 -> B("\\t")
                  [] t[i] = 13 -> B("\\r") [] t[i] = 7 -> B("\\a") [] t[i] = 8 -> B("\\b") [] t[i] = 11 -> B("\\v") [] OTHER -> <<t[i]>> ])
Quoted(t) == <<QUOTE>> \o t \o <<QUOTE>>
\* lines of a keyword with its text: 0 one literal, 1 empty one first, 2 one per unit, 3 an empty one in between
Lit(kw, t, l) ==
  LET u == Units(t)
      whole == Flatten(u)
      k == Len(u) \div 2
      ps == CASE l.split = 0 -> <<whole>> [] l.split = 1 -> <<<<>>, whole>> [] l.split = 2 -> IF u = <<>> THEN << <<>> >> ELSE u
              [] l.split = 3 -> <<Flatten(SubSeq(u, 1, k)), <<>>, Flatten(SubSeq(u, k + 1, Len(u)))>>
  IN TLCEval([ i \in 1..Len(ps) |-> (IF i = 1 THEN kw \o <<32>> ELSE l.ind) \o Quoted(ps[i]) \o l.trail ])
FormKw(i) == B("msgstr[") \o <<47 + i>> \o B("]")
EntryLines(m, l) ==
  l.com \o (IF m.cx = <<>> THEN <<>> ELSE Lit(B("msgctxt"), m.cx[1], l)) \o Lit(B("msgid"), m.id, l)
  \o (IF m.pl = <<>> THEN Lit(B("msgstr"), m.s[1], l)
      ELSE Lit(B("msgid_plural"), m.pl, l) \o Flatten(TLCEval([ i \in 1..Len(m.s) |-> Lit(FormKw(i), m.s[i], l) ])))
HdrText == B("Content-Type: text/plain; charset=UTF-8") \o <<10>> \o B("Plural-Forms: nplurals=2; plural=(n != 1);") \o <<10>>
FileOf(ms, l) ==
  LET blocks == (IF l.hdr THEN <<Lit(B("msgid"), <<>>, Base) \o Lit(B("msgstr"), HdrText, l)>> ELSE <<>>) \o TLCEval([ i \in 1..Len(ms) |-> EntryLines(ms[i], l) ])
      lines == FoldLeft(LAMBDA a, b : IF a = <<>> THEN b ELSE a \o l.sep \o b, <<>>, blocks)
      nl == IF l.crlf THEN <<13, 10>> ELSE <<10>>
      t == FoldLeft(LAMBDA a, x : a \o x \o nl, <<>>, lines)
  IN (IF l.bom THEN Kw.bom ELSE <<>>) \o (IF ~l.fin /\ t # <<>> THEN Take(t, Len(t) - Len(nl)) ELSE t)

\* what the file says: the translated messages; later definitions replace earlier ones
Translated(m) == \E i \in 1..Len(m.s) : m.s[i] # <<>>
Meaning(ms) == FoldLeft(LAMBDA f, m : IF ~Translated(m) THEN f
                 ELSE IF m.pl = <<>> /\ <<m.cx, m.id>> \in DOMAIN f THEN Put(f, <<m.cx, m.id>>, [ f[<<m.cx, m.id>>] EXCEPT ![1] = m.s[1] ])
                 ELSE Put(f, <<m.cx, m.id>>, m.s), EmptyFcn, ms)
DictOf(d) == [ k \in { <<<<>>, i>> : i \in DOMAIN d.ent } \cup { <<<<c[1]>>, c[2]>> : c \in DOMAIN d.ctx } |->
               IF k[1] = <<>> THEN d.ent[k[2]] ELSE d.ctx[<<k[1][1], k[2]>>] ]

VARIABLES vMs, vLay
vars == <<vMs, vLay>>
Init == vMs = <<>> /\ vLay = <<>>
AddMsg == vLay = <<>> /\ Len(vMs) < MaxEntries /\ \E i \in 1..Len(Msgs) : vMs' = Append(vMs, Msgs[i]) /\ UNCHANGED vLay
WriteOut == vLay = <<>> /\ \E l \in Layouts : vLay' = <<l>> /\ UNCHANGED vMs
Next == AddMsg \/ WriteOut
Spec == Init /\ [][Next]_vars

Written == vLay # <<>>
P == Load(FileOf(vMs, vLay[1]))
RoundTrip == Written => DictOf(P) = Meaning(vMs)
\* a tidy file is read without any report (an unusual form count or space is)
Mismatch == \E i \in 1..Len(vMs) : vMs[i].pl # <<>> /\ (~vLay[1].hdr \/ Len(vMs[i].s) # 2)
Redefined == \E i, j \in 1..Len(vMs) : i # j /\ vMs[i].cx = vMs[j].cx /\ vMs[i].id = vMs[j].id
OddSpace == Len(vLay[1].ind) = 1
Silent == Written /\ ~OddSpace /\ ~Mismatch /\ ~Redefined => LET p == Parse(FileOf(vMs, vLay[1]), -1, TRUE, TRUE, NewDict(Kw.utf8)) IN p.errs = <<>> /\ p.warns = <<>>
Lookups == Flatten(TLCEval([ i \in 1..Len(vMs) |-> << CTr(1, vMs[i].cx, vMs[i].id), CTrp(1, vMs[i].cx, vMs[i].id, B("PL"), 1), CTrp(1, vMs[i].cx, vMs[i].id, B("PL"), 2) >> ]))
Out == Written => Show(<< CDict(1, Kw.utf8), CParse(1, FileOf(vMs, vLay[1])) >> \o Lookups \o << CTr(1, <<>>, B("other")), CTr(1, <<B("d")>>, B("a")) >>)
=============================================================================
