-------------------------------- MODULE DictMC --------------------------------
(* A dictionary under every sequence of additions, looked up in between     *)
(* (C11, C12, C13).                                                          *)
EXTENDS Drive
CONSTANTS Alpha, MaxOps

a1 == B("a")
b1 == B("b")
c1 == B("c")
T(i) == B("t") \o <<48 + i>>
None == <<>>
Some(c) == <<c>>
PlRules == << B("Plural-Forms: nplurals=2; plural=(n != 1);"), B("Plural-Forms: nplurals=1; plural=0;"), B("Plural-Forms: nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;"), B("nonsense") >>
OwnPl(u) == [ op |-> "setplf", d |-> 1, u |-> u ]
SetPl(i) == [ op |-> "setpl", d |-> 1, h |-> PlRules[i] ]
Ops == CASE
  Alpha = "plain" -> << CAdd(1, None, a1, T(1)), CAdd(1, None, a1, T(2)), CAdd(1, None, b1, T(1)), CAdd(1, None, a1, <<>>), CAddP(1, None, a1, <<T(1), T(2)>>), CAddP(1, None, a1, <<T(2)>>),
                        CAddP(1, None, a1, <<T(1), <<>>, T(3)>>), CAddP(1, None, b1, <<>>), SetPl(1), SetPl(3), OwnPl(2) >>
  [] Alpha = "ctx" -> << CAdd(1, None, a1, T(1)), CAdd(1, Some(<<>>), a1, T(2)), CAdd(1, Some(c1), a1, T(3)), CAdd(1, Some(a1), c1, T(4)), CAdd(1, Some(c1), b1, T(5)), CAddP(1, None, a1, <<T(6), T(7)>>),
                         CAddP(1, Some(c1), a1, <<T(8), T(9)>>), CAddP(1, Some(<<>>), b1, <<T(1), T(2)>>), CAdd(1, Some(a1), a1, T(7)), CAdd(1, Some(B("c\\a") ), <<>>, T(1)), SetPl(1) >>
  [] Alpha = "both" -> << CAdd(1, None, a1, T(1)), CAdd(1, Some(c1), a1, T(2)), CAdd(1, Some(c1), a1, T(1)), CAddP(1, Some(c1), a1, <<T(1), T(2)>>), CAddP(1, Some(c1), a1, <<T(2), T(2)>>), CAddP(1, None, a1, <<T(1), T(2)>>),
                          CAdd(1, Some(c1), <<>>, T(3)), CAdd(1, None, <<>>, T(3)), SetPl(1), SetPl(4), OwnPl(3), OwnPl(4) >>
Ids == << a1, b1, c1, <<>> >>
Cxs == << None, Some(<<>>), Some(c1), Some(a1) >>
LookAll == Flatten(TLCEval([ i \in 1..16 |-> LET id == Ids[((i - 1) % 4) + 1] cx == Cxs[((i - 1) \div 4) + 1] IN
              << CTr(1, cx, id), CTrp(1, cx, id, B("PL"), 0), CTrp(1, cx, id, B("PL"), 1), CTrp(1, cx, id, B("PL"), 2), CTrp(1, cx, id, B("PL"), 3), CTrp(1, cx, id, B("PL"), -1) >> ]))
VARIABLES vOps
Init == vOps = <<>>
Next == Len(vOps) < MaxOps /\ \E i \in 1..Len(Ops) : vOps' = Append(vOps, Ops[i])
Spec == Init /\ [][Next]_vOps
Dump == [ op |-> "dump", d |-> 1 ]
Out == Show(<< CDict(1, Kw.utf8) >> \o vOps \o << Dump >> \o LookAll \o << Dump >>)

\* stated without Dict: the last words
IsAdd(o) == o.op \in {"add", "addp", "addc", "addcp"}
CxOf(o) == IF o.op \in {"addc", "addcp"} THEN <<o.cx>> ELSE <<>>
Said(cx, id) == SelectSeq(vOps, LAMBDA o : IsAdd(o) /\ o.id = id /\ CxOf(o) = cx)
RECURSIVE FormsOf(_)
FormsOf(s) == IF s = <<>> THEN <<>> ELSE LET l == s[Len(s)] IN
              IF l.op \in {"addp", "addcp"} THEN l.s ELSE LET p == FormsOf(SubSeq(s, 1, Len(s) - 1)) IN IF p = <<>> THEN <<l.s>> ELSE [ p EXCEPT ![1] = l.s ]
D == FoldLeft(LAMBDA s, o : Apply(s, o).s, Apply(S0, CDict(1, Kw.utf8)).s, vOps).dict[1]
\* the latest definition wins, whatever else was said
Latest == \A i \in 1..Len(Ids), j \in 1..Len(Cxs) :
            LET s == Said(Cxs[j], Ids[i]) IN Has(D, Cxs[j], Ids[i]) = (s # <<>>) /\ (s # <<>> => Forms(D, Cxs[j], Ids[i]) = FormsOf(s))
\* lookups stated as in the documentation
Answer == \A i \in 1..Len(Ids), j \in 1..Len(Cxs) :
            LET f == FormsOf(Said(Cxs[j], Ids[i])) IN
            /\ Tr(D, Cxs[j], Ids[i]).r = IF f # <<>> /\ f[1] # <<>> THEN f[1] ELSE Ids[i]
            /\ \A n \in -1..3 : ByUser(D.pl) \/ n >= 0 => LET k == FormOf(D.pl, n) + 1 IN
                 Trp(D, Cxs[j], Ids[i], B("PL"), n).r = IF k <= Len(f) /\ f[k] # <<>> THEN f[k] ELSE IF n = 1 THEN Ids[i] ELSE B("PL")
\* found texts are silent; unknown messages are told as info, missing forms as errors
Told == \A i \in 1..Len(Ids), j \in 1..Len(Cxs) :
          LET known == Said(Cxs[j], Ids[i]) # <<>>
              f == FormsOf(Said(Cxs[j], Ids[i]))
              t == Tr(D, Cxs[j], Ids[i])
          IN /\ t.err = 0 /\ (t.info > 0) = (f = <<>> \/ f[1] = <<>>)
             /\ \A n \in 0..3 : LET p == Trp(D, Cxs[j], Ids[i], B("PL"), n) IN
                  (p.info > 0) = ~known /\ (p.err > 0) = (known /\ FormOf(D.pl, n) >= Len(f))
=============================================================================
