-------------------------------- MODULE TellMC --------------------------------
(* What a lookup says about what it did not find (C36): chains of           *)
(* dictionaries, each knowing a message in every way it can be known.        *)
EXTENDS Drive
CONSTANTS MaxOps

a1 == B("a")
cc == B("c")
V(d, k) == B("v") \o <<48 + d, 48 + k>>
Rules == << B("Plural-Forms: nplurals=2; plural=(n != 1);"), B("Plural-Forms: nplurals=1; plural=0;"), B("Plural-Forms: nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;") >>
\* forms; <<>>: known without a form.  cx: 0 no context, 1 the one asked for, 2 another
Way(cx, f) == [ cx |-> cx, f |-> f ]
Ways == << Way(0, <<0>>), Way(0, <<1>>), Way(0, <<1, 2>>), Way(0, <<0, 2>>), Way(0, <<1, 0>>), Way(0, <<>>), Way(1, <<1>>), Way(1, <<0, 2>>), Way(1, <<1, 2, 3>>), Way(1, <<>>), Way(2, <<1, 2>>) >>
NWays == Len(Ways) + 1    \* the last: not at all
CxOf(w) == CASE Ways[w].cx = 0 -> <<>> [] Ways[w].cx = 1 -> <<cc>> [] Ways[w].cx = 2 -> << B("o") >>
Fms(d, w) == [ i \in 1..Len(Ways[w].f) |-> IF Ways[w].f[i] = 0 THEN <<>> ELSE V(d, Ways[w].f[i]) ]
Knows(d, w) == IF w = NWays THEN <<>> ELSE << CAddP(d, CxOf(w), a1, Fms(d, w)) >>
VARIABLES vW, vR
Init == vW = <<>> /\ vR = 0
Next == \/ Len(vW) < MaxOps /\ vR = 0 /\ \E w \in 1..NWays : vW' = Append(vW, w) /\ vR' = vR
        \/ Len(vW) = MaxOps /\ vR = 0 /\ vR' \in (IF MaxOps = 3 THEN {1} ELSE 1..3) /\ vW' = vW
Spec == Init /\ [][Next]_<<vW, vR>>
N == Len(vW)
RuleAt(d) == Rules[((vR + d - 2) % 3) + 1]
Setup == TLCEval([ d \in 1..N |-> CDict(d, Kw.utf8) ]) \o TLCEval([ d \in 1..N |-> [ op |-> "setpl", d |-> d, h |-> RuleAt(d) ] ])
         \o Flatten(TLCEval([ d \in 1..N |-> Knows(d, vW[d]) ])) \o TLCEval([ d \in 1..(N - 1) |-> [ op |-> "fb", d |-> d, f |-> d + 1 ] ])
Looks == Flatten(TLCEval([ i \in 1..2 |-> LET c == IF i = 1 THEN <<>> ELSE <<cc>> IN << CTr(1, c, a1), CTrp(1, c, a1, B("as"), 1), CTrp(1, c, a1, B("as"), 2), CTrp(1, c, a1, B("as"), 3) >> ]))
Sinks == << [ op |-> "cb", sev |-> 2, sink |-> 3 ], [ op |-> "cb", sev |-> 1, sink |-> 4 ], [ op |-> "cb", sev |-> 3, sink |-> 1 ] >>
Out == vR = 0 \/ (Show(Setup \o Looks) /\ Show(<< [ op |-> "logtext" ] >> \o Setup \o Looks \o Sinks \o Looks))

\* stated on its own.  Link d knows the message in context c with forms f, or not at all
St == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup)
D1 == Resolve(St.dict, 1)
Has1(d, c) == vW[d] # NWays /\ CxOf(vW[d]) = c
Fs(d, c) == Fms(d, vW[d])
\* the first link giving a text for form k of each, or 0
GivesT(d, c) == Has1(d, c) /\ Fs(d, c) # <<>> /\ Fs(d, c)[1] # <<>>
FormAt(d, n) == FormOf(FromHeader(RuleAt(d)), n) + 1
GivesP(d, c, n) == Has1(d, c) /\ FormAt(d, n) <= Len(Fs(d, c)) /\ Fs(d, c)[FormAt(d, n)] # <<>>
First(P(_)) == LET S == { d \in 1..N : P(d) } IN IF S = {} THEN N + 1 ELSE CHOOSE d \in S : \A x \in S : d <= x
Tells == vR > 0 => \A c \in { <<>>, <<cc>> } :
   LET ft == First(LAMBDA d : GivesT(d, c)) t == Tr(D1, c, a1) IN
   /\ t.err = 0 /\ t.info = ft - 1       \* one for every link asked in vain
   /\ \A n \in 1..3 :
        LET fp == First(LAMBDA d : GivesP(d, c, n)) p == Trp(D1, c, a1, B("as"), n) asked == { d \in 1..N : d < fp } IN
        /\ (p.info > 0) = (\E d \in asked : ~Has1(d, c))
        /\ (p.err > 0) = (\E d \in asked : Has1(d, c) /\ FormAt(d, n) > Len(Fs(d, c)))
        /\ p.r = IF fp <= N THEN Fs(fp, c)[FormAt(fp, n)] ELSE IF n = 1 THEN a1 ELSE B("as")
=============================================================================
