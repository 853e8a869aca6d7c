------------------------------- MODULE PluralMC -------------------------------
(* Plural rules (C10): every supported header, respelled and damaged.       *)
EXTENDS Drive
CONSTANTS Mode, Sweep

H(r) == RuleHdr[r]
\* white space: none, as usual, everywhere, line ends, in front
Respell(h, k) == CASE k = 0 -> h [] k = 1 -> Flatten(TLCEval([ i \in 1..Len(h) |-> IF h[i] \in {58, 59} THEN <<h[i], 32>> ELSE <<h[i]>> ]))
                   [] k = 2 -> Flatten(TLCEval([ i \in 1..Len(h) |-> <<h[i], 32>> ])) [] k = 3 -> Flatten(TLCEval([ i \in 1..Len(h) |-> IF h[i] = 59 THEN <<59, 13, 10, 9>> ELSE <<h[i]>> ]))
                   [] k = 4 -> <<9, 32>> \o h \o <<11, 12>> [] k = 5 -> Flatten(TLCEval([ i \in 1..Len(h) |-> IF IsDigit(h[i]) THEN <<32, h[i], 32>> ELSE <<h[i]>> ]))
\* damages: a byte missing, doubled, or replaced
Repl(c) == CASE IsDigit(c) -> IF c = 57 THEN 48 ELSE c + 1 [] c = 60 -> 62 [] c = 62 -> 60 [] c = 61 -> 33 [] c = 33 -> 61 [] c = 38 -> 124 [] c = 124 -> 38 [] c = 63 -> 58 [] c = 110 -> 109 [] OTHER -> 46
Damage(h, p, k) == CASE k = 1 -> Take(h, p - 1) \o Drop(h, p) [] k = 2 -> Take(h, p) \o Drop(h, p - 1) [] k = 3 -> [ h EXCEPT ![p] = Repl(@) ]
                      [] k = 4 -> IF p < Len(h) THEN Take(h, p - 1) \o <<h[p+1], h[p]>> \o Drop(h, p + 1) ELSE Append(h, 59) [] k = 5 -> Take(h, p)
Big == << 319, 1000000, 1000001, 1000002, 1000011, 2147483647, 2147483600, 2147483646 >>
Neg == << -1, -2, -5, -11, -100, -2147483647 >>
VARIABLES vRule, vVar
Init == vRule \in 1..NRules /\ vVar = 0
NVar == IF Mode = "spell" THEN 6 ELSE Len(H(vRule))
Next == vVar < NVar /\ vVar' = vVar + 1 /\ vRule' = vRule
Spec == Init /\ [][Next]_<<vRule, vVar>>
Pf(k, h) == [ op |-> "pf", k |-> k, h |-> h ]
Per(k, lo, hi) == [ op |-> "per", k |-> k, lo |-> lo, hi |-> hi ]
Pe(k, n) == [ op |-> "pe", k |-> k, n |-> n ]
Peq(k, j) == [ op |-> "peq", k |-> k, j |-> j ]
SweepC(k) == IF Sweep = 0 THEN <<>> ELSE << [ op |-> "psweep", k |-> k, lo |-> 200, hi |-> 2147483000, step |-> Sweep ] >>
Out == IF Mode = "spell"
       THEN vVar = 6 \/ Show(<< Pf(1, Respell(H(vRule), vVar)), Per(1, 0, IF vVar = 0 THEN 1210 ELSE 125), Pe(1, Big \o Neg) >> \o (IF vVar = 0 THEN SweepC(1) ELSE <<>>)
                 \* equality: with itself otherwise spelled, with every other rule, with no rule
                 \o << Pf(2, H(vRule)), Peq(1, 2), Pf(3, B("Plural-Forms: nonsense")), Peq(1, 3), Peq(3, 3) >>
                 \o (IF vVar = 0 THEN Flatten(TLCEval([ j \in 1..NRules |-> << Pf(2, H(j)), Peq(1, 2), Peq(2, 1) >> ])) ELSE <<>>)
                 \o << [ op |-> "dict", d |-> 1, cs |-> Kw.utf8 ], [ op |-> "setpl", d |-> 1, h |-> Respell(H(vRule), vVar) ], [ op |-> "dump", d |-> 1 ] >>)
       ELSE vVar = 0 \/ Show(Flatten(TLCEval([ k \in 1..5 |-> << Pf(k, Damage(H(vRule), vVar, k)), Pe(k, << 0, 1, 2, 3, 4, 5, 8, 10, 11, 12, 19, 20, 21, 22, 100, 101, 102, 111, 112, 1000 >>) >> ])))
\* the list is sound
Sound == vVar = 0 => /\ RuleDef[vRule].ok /\ RuleDef[vRule].np >= 1
                     /\ \A n \in 0..1210 : FormOf(vRule, n) >= 0 /\ FormOf(vRule, n) < NPlurals(vRule)
                     \* counts from 100 on repeat with period 100 (assumed for all counts by psweep)
                     /\ \A n \in 100..1210 : FormOf(vRule, n) = FormOf(vRule, 100 + (n % 100))
                     \* every form is used
                     /\ \A f \in 0..(NPlurals(vRule) - 1) : (\E n \in 0..1210 : FormOf(vRule, n) = f) \/ vRule \in {16, 17, 21, 22, 18, 23}
Recognised == vVar < 6 /\ Mode = "spell" => FromHeader(Respell(H(vRule), vVar)) = RuleOf[H(vRule)]
=============================================================================
