---------------------------- MODULE PluralExpr ----------------------------
(* The C expression of a Plural-Forms header: parser and evaluator.        *)
(*   ?:  ||  &&  == !=  < > <= >=  %  ! ( )  n  number                      *)
EXTENDS Bytes

\* a parse result is [ok, ast, p]: p = next position
PFail(p) == [ ok |-> FALSE, ast |-> [k |-> "x"], p |-> p ]
At(s, p, t) == p + Len(t) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(t) - 1) = t

RECURSIVE PCond(_, _), PBin(_, _, _), PBinTail(_, _, _), PUnary(_, _), Digits(_, _, _)
\* operators by level, loosest first; longer operators first
Levels == << << <<B("||"), "or">> >>, << <<B("&&"), "and">> >>, << <<B("=="), "eq">>, <<B("!="), "ne">> >>,
             << <<B("<="), "le">>, <<B(">="), "ge">>, <<B("<"), "lt">>, <<B(">"), "gt">> >>, << <<B("%"), "mod">> >> >>
OpAt(s, p, lv) ==
  LET c == { i \in 1..Len(Levels[lv]) : At(s, p, Levels[lv][i][1]) }
  IN IF c = {} THEN << >> ELSE Levels[lv][CHOOSE i \in c : \A j \in c : i <= j]
Digits(s, p, acc) == IF p <= Len(s) /\ IsDigit(s[p]) /\ acc < 100000 THEN Digits(s, p+1, acc*10 + s[p] - 48) ELSE <<acc, p>>

PUnary(s, p) ==
  IF p > Len(s) THEN PFail(p)
  ELSE IF s[p] = 40 \* (
    THEN LET r == PCond(s, p+1) IN IF r.ok /\ r.p <= Len(s) /\ s[r.p] = 41 THEN [r EXCEPT !.p = @ + 1] ELSE PFail(r.p)
  ELSE IF s[p] = 33 /\ ~At(s, p, B("!=")) \* !
    THEN LET r == PUnary(s, p+1) IN IF r.ok THEN [ok |-> TRUE, ast |-> [k |-> "not", a |-> r.ast], p |-> r.p] ELSE r
  ELSE IF s[p] = 110 THEN [ ok |-> TRUE, ast |-> [k |-> "n"], p |-> p + 1 ]
  ELSE IF IsDigit(s[p]) THEN LET d == Digits(s, p, 0) IN [ ok |-> TRUE, ast |-> [k |-> "c", v |-> d[1]], p |-> d[2] ]
  ELSE PFail(p)

PBinTail(s, lv, l) ==
  LET o == OpAt(s, l.p, lv) IN
  IF o = << >> THEN l
  ELSE LET r == IF lv = 5 THEN PUnary(s, l.p + Len(o[1])) ELSE PBin(s, l.p + Len(o[1]), lv + 1) IN
       IF ~r.ok THEN r ELSE PBinTail(s, lv, [ ok |-> TRUE, ast |-> [k |-> o[2], a |-> l.ast, b |-> r.ast], p |-> r.p ])
PBin(s, p, lv) ==
  LET l == IF lv = 5 THEN PUnary(s, p) ELSE PBin(s, p, lv + 1)
  IN IF ~l.ok THEN l ELSE PBinTail(s, lv, l)
PCond(s, p) ==
  LET c == PBin(s, p, 1) IN
  IF ~c.ok \/ ~At(s, c.p, B("?")) THEN c
  ELSE LET t == PCond(s, c.p + 1) IN
       IF ~t.ok \/ ~At(s, t.p, B(":")) THEN PFail(t.p)
       ELSE LET e == PCond(s, t.p + 1) IN
            IF ~e.ok THEN e ELSE [ ok |-> TRUE, ast |-> [k |-> "if", c |-> c.ast, a |-> t.ast, b |-> e.ast], p |-> e.p ]

ParseExpr(s) == LET r == PCond(s, 1) IN IF r.ok /\ r.p = Len(s) + 1 THEN r ELSE PFail(r.p)

RECURSIVE Eval(_, _)
\* n >= 0
Eval(t, n) ==
  CASE t.k = "n"   -> n
    [] t.k = "c"   -> t.v
    [] t.k = "not" -> IF Eval(t.a, n) = 0 THEN 1 ELSE 0
    [] t.k = "mod" -> LET m == Eval(t.b, n) IN IF m = 0 THEN 0 ELSE Eval(t.a, n) % m
    [] t.k = "eq"  -> Bool01(Eval(t.a, n) =  Eval(t.b, n))
    [] t.k = "ne"  -> Bool01(Eval(t.a, n) /= Eval(t.b, n))
    [] t.k = "lt"  -> Bool01(Eval(t.a, n) <  Eval(t.b, n))
    [] t.k = "le"  -> Bool01(Eval(t.a, n) <= Eval(t.b, n))
    [] t.k = "gt"  -> Bool01(Eval(t.a, n) >  Eval(t.b, n))
    [] t.k = "ge"  -> Bool01(Eval(t.a, n) >= Eval(t.b, n))
    [] t.k = "and" -> IF Eval(t.a, n) = 0 THEN 0 ELSE Bool01(Eval(t.b, n) /= 0)
    [] t.k = "or"  -> IF Eval(t.a, n) /= 0 THEN 1 ELSE Bool01(Eval(t.b, n) /= 0)
    [] t.k = "if"  -> IF Eval(t.c, n) /= 0 THEN Eval(t.a, n) ELSE Eval(t.b, n)

\* "Plural-Forms:nplurals=N;plural=EXPR;" without white space -> [ok, np, ast]
HdrPre == B("Plural-Forms:nplurals=")
ParseHeaderRule(h) ==
  IF ~HasPrefix(h, HdrPre) THEN [ ok |-> FALSE, np |-> 0, ast |-> [k |-> "x"] ]
  ELSE LET d == Digits(h, Len(HdrPre) + 1, 0)
           m == B(";plural=")
           rest == Drop(h, d[2] - 1)
           ex0 == Drop(rest, Len(m))
           ex == IF ex0 # <<>> /\ ex0[Len(ex0)] = 59 THEN Take(ex0, Len(ex0) - 1) ELSE ex0
           r == ParseExpr(ex)
       IN IF d[2] = Len(HdrPre) + 1 \/ ~HasPrefix(rest, m) \/ ~r.ok THEN [ ok |-> FALSE, np |-> 0, ast |-> [k |-> "x"] ]
          ELSE [ ok |-> TRUE, np |-> d[1], ast |-> r.ast ]
=============================================================================
