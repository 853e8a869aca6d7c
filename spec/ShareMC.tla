-------------------------------- MODULE ShareMC --------------------------------
(* One dictionary asked by several threads at once (C37): lookups, one at a  *)
(* time of each thread, in every order; and the dictionaries shared this way.*)
EXTENDS Drive
CONSTANTS Threads, Asks, Wide

FormTab == << <<>>, << B("A") >>, << <<>>, B("B") >>, << B("A"), <<>> >>, << B("A"), B("B"), B("C") >> >>
Rules == << <<>>, B("Plural-Forms: nplurals=2; plural=(n != 1);"), B("Plural-Forms: nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;") >>
\* rule, forms of a without and with context, forms of the fallback (0: no fallback)
Shapes == { x \in (0..3) \X (0..5) \X (0..5) \X (0..6) : Wide \/ (x[1] # 0 /\ (x[2] = x[3] \/ x[2] = 0) /\ x[4] \in {0, 1, 3, 6}) }
Cx == << B("c") >>
Know(d, cx, f) == IF f = 0 THEN <<>> ELSE << CAddP(d, cx, B("a"), FormTab[f]) >>
Q(k, a, n) == [ op |-> "q", k |-> k, a |-> a, n |-> n ]
Qs == << Q("tr", << B("a") >>, 0), Q("trc", << B("c"), B("a") >>, 0), Q("trp", << B("a"), B("as") >>, 2), Q("trcp", << B("c"), B("a"), B("as") >>, 2), Q("tr", << B("no") >>, 0), Q("trcp", << B("d"), B("a"), B("as") >>, 1) >>
Rule(d, r) == IF r = 0 THEN << [ op |-> "setplf", d |-> d, u |-> 1 ] >> ELSE << [ op |-> "setpl", d |-> d, h |-> Rules[r] ] >>
SetupOf(x) == << CDict(1, Kw.utf8), CDict(2, Kw.utf8) >> \o Rule(1, x[1]) \o Rule(2, 2) \o Know(1, <<>>, x[2]) \o Know(1, Cx, x[3])
              \o (IF x[4] = 0 THEN <<>> ELSE Know(2, <<>>, x[4] - 1) \o Know(2, Cx, x[4] - 1) \o << [ op |-> "fb", d |-> 1, f |-> 2 ] >>) \o Qs
VARIABLES vShape, vSt, vPc, vGot
vars == <<vShape, vSt, vPc, vGot>>
Init == vShape = <<>> /\ vSt = S0 /\ vPc = [ t \in 1..Threads |-> 0 ] /\ vGot = [ t \in 1..Threads |-> <<>> ]
Choose == vShape = <<>> /\ vShape' \in Shapes /\ vSt' = FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, SetupOf(vShape')) /\ UNCHANGED <<vPc, vGot>>
\* thread t makes its next call, starting at the t-th
AskOf(t, i) == LET q == Qs[((t + i - 1) % Len(Qs)) + 1] IN
               CASE q.k = "tr" -> [ op |-> "tr", d |-> 1, id |-> q.a[1] ]
                 [] q.k = "trc" -> [ op |-> "trc", d |-> 1, cx |-> q.a[1], id |-> q.a[2] ]
                 [] q.k = "trp" -> [ op |-> "trp", d |-> 1, id |-> q.a[1], pl |-> q.a[2], n |-> q.n ]
                 [] q.k = "trcp" -> [ op |-> "trcp", d |-> 1, cx |-> q.a[1], id |-> q.a[2], pl |-> q.a[3], n |-> q.n ]
Ask(t) == /\ vShape # <<>> /\ vPc[t] < Asks
          /\ LET r == Apply(vSt, AskOf(t, vPc[t])) IN vSt' = r.s /\ vGot' = [ vGot EXCEPT ![t] = Append(@, r.x) ]
          /\ vPc' = [ vPc EXCEPT ![t] = @ + 1 ] /\ UNCHANGED vShape
Next == Choose \/ \E t \in 1..Threads : Ask(t)
Spec == Init /\ [][Next]_vars
\* every thread gets what it would get alone, and nothing changes
AsAlone == vShape # <<>> => LET s == FoldLeft(LAMBDA a, e : Apply(a, e).s, S0, SetupOf(vShape)) IN
           vSt.dict = s.dict /\ \A t \in 1..Threads : \A i \in 1..vPc[t] : vGot[t][i] = Apply(s, AskOf(t, i - 1)).x
Out == (vShape # <<>> /\ \A t \in 1..Threads : vPc[t] = 0) => Show(SetupOf(vShape) \o << [ op |-> "share", nt |-> 4, rep |-> 3, k |-> 0, a |-> 1 ] >>)
=============================================================================
