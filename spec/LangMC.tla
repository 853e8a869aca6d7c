-------------------------------- MODULE LangMC --------------------------------
(* Languages by specification (C15), for every known code, and match scores *)
(* (C17), for every pair of languages.                                       *)
EXTENDS Drive
CONSTANTS Mode, Wide

CodeSeq == SetToSortSeq(Codes, LexLess) \o << B("xx"), <<>>, B("DE"), B("de_DE"), B("d"), B("deu"), <<195, 164>>, B("de ") >>
Own(c) == IF c \in Codes THEN { Rows[ByCode[c][i]].c : i \in 1..Len(ByCode[c]) } ELSE {}
OwnM(c) == IF c \in Codes THEN { Rows[ByCode[c][i]].m : i \in 1..Len(ByCode[c]) } ELSE {}
AllCountries == { Rows[i].c : i \in 1..NRows }
AllModifiers == { Rows[i].m : i \in 1..NRows }
Countries(c) == { <<>>, B("XX"), B("US"), B("AT"), B("de"), B("latin") } \cup Own(c) \cup OwnM(c) \cup (IF Wide THEN AllCountries \cup { Lower(x) : x \in Own(c) } ELSE {})
Modifiers(c) == { <<>>, B("euro"), B("latin"), B("US"), B("XXlatin") } \cup OwnM(c) \cup Own(c) \cup (IF Wide THEN AllModifiers \cup { B("x"), B("Latin") } ELSE {})

VARIABLES vI
Init == vI = 0
Next == vI = 0 /\ vI' \in 1..(IF Mode = "spec" THEN Len(CodeSeq) ELSE NRows)
Spec == Init /\ [][Next]_vI
SpecCall(l, c, m) == [ op |-> "spec", l |-> l, c |-> c, m |-> m ]
Code == CodeSeq[vI]
Requests == SetToSeq(Countries(Code) \X Modifiers(Code))
\* two requests that agree but for one part
SpecOut == Show(TLCEval([ i \in 1..Len(Requests) |-> SpecCall(Code, Requests[i][1], Requests[i][2]) ])
                \o TLCEval([ i \in 1..Len(ByCode[Code]) |-> [ op |-> "env", s |-> LStr(ByCode[Code][i]) ] ]))
\* pairs
Others == SelectSeq(TLCEval([ j \in 1..NRows |-> j ]), LAMBDA j : Wide \/ Rows[j].l = Rows[vI].l \/ j % 24 = vI % 24)
MatchCall(i, j) == [ op |-> "match", a |-> LStr(i), b |-> LStr(j) ]
MatchOut == Show(TLCEval([ k \in 1..Len(Others) |-> MatchCall(vI, Others[k]) ]) \o << [ op |-> "match", a |-> LStr(vI), b |-> B("xx") ], [ op |-> "match", a |-> <<>>, b |-> B("xx") ] >>)
\* containers of languages: relatives, the same by other names, unknown ones
Spelt(i) == << LStr(i), LStr(i), B("xx") >> \o (IF LModifier(i) = <<>> THEN << LStr(i) \o B(".UTF-8"), LStr(i) \o B("@unknown") >> ELSE <<>>)
KeysOut == LET k(j) == Spelt(Others[j]) IN
           Show(<< [ op |-> "keys", l |-> Flatten(TLCEval([ j \in 1..Len(Others) |-> IF Wide THEN << LStr(Others[j]) >> ELSE k(j) ])) ], [ op |-> "keys", l |-> Spelt(vI) ], [ op |-> "keys", l |-> <<>> ],
                   [ op |-> "keys", l |-> << LStr(vI), <<>>, LStr((vI % NRows) + 1), LStr(vI) >> ] >>)
\* the strings of two languages are two
Keys == vI > 0 /\ Mode = "keys" => \A j \in 1..NRows : (LStr(j) = LStr(vI)) = (j = vI)
Out == vI = 0 \/ (IF Mode = "keys" THEN KeysOut ELSE IF Mode = "spec" THEN (IF Code \in Codes THEN SpecOut ELSE Show(TLCEval([ i \in 1..Len(Requests) |-> SpecCall(Code, Requests[i][1], Requests[i][2]) ]))) ELSE MatchOut)

\* the choice is the best of the code, the first of those
Best == (vI > 0 /\ Mode = "spec") => \A r \in Countries(Code) \X Modifiers(Code) :
          LET l == FromSpec(Code, r[1], r[2])
              sc(i) == MatchT(Code, r[1], r[2], Rows[i].l, Rows[i].c, Rows[i].m)
          IN /\ (l = 0) = (Code \notin Codes)
             /\ l # 0 => Rows[l].l = Code /\ \A i \in 1..NRows : Rows[i].l = Code => sc(i) < sc(l) \/ (sc(i) = sc(l) /\ i >= l)
             \* country weighs more than modifier
             /\ l # 0 /\ (\E i \in 1..NRows : Rows[i].l = Code /\ Rows[i].c = r[1]) => Rows[l].c = r[1]
Reached == (vI > 0 /\ Mode = "match") => FromEnv(LStr(vI)) = vI /\ FromSpec(Rows[vI].l, Rows[vI].c, Rows[vI].m) = vI
Scores == (vI > 0 /\ Mode = "match") => \A j \in 1..NRows :
            LET s == Match(vI, j) IN
            /\ s = Match(j, vI) /\ (s = 0) = (Rows[vI].l # Rows[j].l) /\ s \in 0..9
            /\ (s = 9) = (vI = j)
            /\ \A k \in 1..NRows : Rows[k].l = Rows[vI].l /\ Rows[j].l = Rows[vI].l =>
                 LET cr(x) == Rel(Rows[vI].c, Rows[x].c) mr(x) == Rel(Rows[vI].m, Rows[x].m) IN
                 /\ cr(j) = 1 /\ cr(k) = 3 => Match(vI, j) > Match(vI, k) \/ mr(j) > mr(k)
                 /\ mr(j) = mr(k) /\ cr(j) < cr(k) => Match(vI, j) > Match(vI, k)
                 /\ cr(j) = cr(k) /\ mr(j) < mr(k) => Match(vI, j) > Match(vI, k)
=============================================================================
