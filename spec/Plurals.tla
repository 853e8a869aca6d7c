------------------------------ MODULE Plurals ------------------------------
(* The Plural-Forms headers the library documents as supported.  A plural   *)
(* rule is the number of its header in this list, 0 = undefined.            *)
EXTENDS PluralExpr

Supported0 == <<
  "nplurals=1;plural=0;",
  "nplurals=2;plural=(n!=1);",
  "nplurals=2;plural=n!=1;",
  "nplurals=2;plural=(n>1);",
  "nplurals=2;plural=n==1||n%10==1?0:1;",
  "nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;",
  "nplurals=3;plural=(n%10==1&&n%100!=11?0:n!=0?1:2);",
  "nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2;",
  "nplurals=3;plural=n==1?0:n==2?1:2;",
  "nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);",
  "nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);",
  "nplurals=3;plural=(n==1)?0:(n>=2&&n<=4)?1:2;",
  "nplurals=3;plural=(n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);",
  "nplurals=4;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);",
  "nplurals=3;plural=(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));",
  "nplurals=4;plural=(n%1==0&&n==1?0:n%1==0&&n>=2&&n<=4?1:n%1!=0?2:3);",
  "nplurals=4;plural=(n==1&&n%1==0)?0:(n>=2&&n<=4&&n%1==0)?1:(n%1!=0)?2:3;",
  "nplurals=4;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14)?2:3);",
  "nplurals=4;plural=(n==1||n==11)?0:(n==2||n==12)?1:(n>2&&n<20)?2:3;",
  "nplurals=4;plural=(n==1)?0:(n==2)?1:(n!=8&&n!=11)?2:3;",
  "nplurals=4;plural=(n%10==1&&(n%100>19||n%100<11)?0:(n%10>=2&&n%10<=9)&&(n%100>19||n%100<11)?1:n%1!=0?2:3);",
  "nplurals=4;plural=(n%1==0&&n%10==1&&n%100!=11?0:n%1==0&&n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%1==0&&(n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14))?2:3);",
  "nplurals=4;plural=(n==1?0:(n%10>=2&&n%10<=4)&&(n%100<12||n%100>14)?1:n!=1&&(n%10>=0&&n%10<=1)||(n%10>=5&&n%10<=9)||(n%100>=12&&n%100<=14)?2:3);",
  "nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;",
  "nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)",
  "nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5" >>

NRules == Len(Supported0)
RuleHdr == TLCEval([ i \in 1..NRules |-> B("Plural-Forms:") \o B(Supported0[i]) ])
RuleSet == { RuleHdr[i] : i \in 1..NRules }
RuleDef == TLCEval([ i \in 1..NRules |-> ParseHeaderRule(RuleHdr[i]) ])
TabMax == 320
RuleTab == TLCEval([ i \in 1..NRules |-> [ n \in 0..TabMax |-> Eval(RuleDef[i].ast, n) ] ])
\* two pairs of headers are spellings of the same rule
FirstSpelling(i) == CASE i = 3 -> 2 [] i = 8 -> 7 [] OTHER -> i
RuleOf == TLCEval([ h \in RuleSet |-> FirstSpelling(CHOOSE k \in 1..NRules : RuleHdr[k] = h) ])

NoSpace(h) == Strip(h, IsSpace)
FromHeader(h) == LET k == NoSpace(h) IN IF k \in RuleSet THEN RuleOf[k] ELSE 0
\* rules of the user's own, as NRules + 1..4; their functions are asked as they are, and what
\* they say is taken as it is: a form nobody gave is one that is missing
UserNP == << 3, 2, 1, 4 >>
UserForm(u, n) ==
  CASE u = 1 -> IF n < 0 THEN 2 ELSE n % 3
    [] u = 2 -> IF n < 0 THEN 9 ELSE n
    [] u = 3 -> 7
    [] u = 4 -> IF n = 1 THEN 0 ELSE IF n < 0 THEN 3 ELSE 1 + (n % 2)
ByUser(r) == r > NRules
NPlurals(r) == IF r = 0 THEN 0 ELSE IF ByUser(r) THEN UserNP[r - NRules] ELSE RuleDef[r].np
\* an undefined rule selects form 0
FormOf(r, n) == IF r = 0 THEN 0 ELSE IF ByUser(r) THEN UserForm(r - NRules, n) ELSE IF n >= 0 /\ n <= TabMax THEN RuleTab[r][n] ELSE Eval(RuleDef[r].ast, n)
PvCounts == TLCEval([ i \in 1..58 |-> IF i <= 31 THEN i - 1 ELSE i + 67 ])
PvTab == TLCEval([ r \in 0..(NRules + 4) |-> [ i \in 1..58 |-> FormOf(r, PvCounts[i]) ] ])
=============================================================================
