-------------------------------- MODULE Lang --------------------------------
(* Languages: the table, requests, locale strings, aliases, match scores,   *)
(* file names.  A language is the number of its table row, 0 = undefined.   *)
EXTENDS Bytes, Json

LangData == TLCEval(JsonDeserialize("lang.json"))
Rows == LangData.rows
NRows == Len(Rows)
Codes == { Rows[i].l : i \in 1..NRows }
\* rows of a code in table order
ByCode == TLCEval([ c \in Codes |-> SelectSeq([ i \in 1..NRows |-> i ], LAMBDA i : Rows[i].l = c) ])
\* lower case keys only: the lookup folds the name to lower case
Aliases == LET a == LangData.aliases
               k == { i \in 1..Len(a) : Lower(a[i].k) = a[i].k }
           IN TLCEval([ n \in { a[i].k : i \in k } |-> a[CHOOSE i \in k : a[i].k = n].v ])

Undefined == 0
LCode(l) == IF l = 0 THEN <<>> ELSE Rows[l].l
LCountry(l) == IF l = 0 THEN <<>> ELSE Rows[l].c
LModifier(l) == IF l = 0 THEN <<>> ELSE Rows[l].m
LName(l) == IF l = 0 THEN <<>> ELSE Rows[l].name
LLocal(l) == IF l = 0 THEN <<>> ELSE Rows[l].loc
LStr(l) == IF l = 0 THEN <<>>
           ELSE Rows[l].l \o (IF Rows[l].c = <<>> THEN <<>> ELSE B("_") \o Rows[l].c)
                          \o (IF Rows[l].m = <<>> THEN <<>> ELSE B("@") \o Rows[l].m)
LangRec(l) == [ def |-> Bool01(l # 0), l |-> LCode(l), c |-> LCountry(l), m |-> LModifier(l),
                str |-> LStr(l), name |-> LName(l), loc |-> LLocal(l) ]

\* 1 agree, 2 one unspecified, 3 differ
Rel(a, b) == IF a = b THEN 1 ELSE IF a = <<>> \/ b = <<>> THEN 2 ELSE 3
Score == << <<9, 8, 5>>, <<7, 6, 3>>, <<4, 2, 1>> >>
\* the score of two (code, country, modifier) triples
MatchT(l1, c1, m1, l2, c2, m2) == IF l1 # l2 THEN 0 ELSE Score[Rel(c1, c2)][Rel(m1, m2)]
Match(x, y) == MatchT(LCode(x), LCountry(x), LModifier(x), LCode(y), LCountry(y), LModifier(y))

\* first of the best
BestOf(seq, scoreOf(_)) ==
  FoldLeft(LAMBDA a, i : IF scoreOf(i) > a.s THEN [ s |-> scoreOf(i), i |-> i ] ELSE a, [ s |-> 0, i |-> 0 ], seq).i
FromSpec(l, c, m) ==
  IF l \notin Codes THEN Undefined
  ELSE BestOf(ByCode[l], LAMBDA i : MatchT(l, Rows[i].c, Rows[i].m, l, c, m))

Far == 1000000
FindOr(s, c) == LET p == PosOf(s, c) IN IF p = 0 THEN Far ELSE p
Lesser(a, b) == IF a < b THEN a ELSE b
\* LANGUAGE[_COUNTRY][.CODESET][@MODIFIER]
EnvParts(s) ==
  LET us == FindOr(s, 95)
      dt == FindOr(s, 46)
      at == FindOr(s, 64)
      sep == Lesser(dt, at)
  IN [ l |-> Take(s, Lesser(Lesser(us, sep) - 1, Len(s))),
       c |-> IF us < sep THEN SubSeq(s, us + 1, Lesser(sep - 1, Len(s))) ELSE <<>>,
       m |-> IF at < Far THEN Drop(s, at) ELSE <<>> ]
FromEnv(s) == LET p == EnvParts(s) IN FromSpec(p.l, p.c, p.m)
FromName(s) == IF Lower(s) \in DOMAIN Aliases THEN FromEnv(Aliases[Lower(s)]) ELSE FromEnv(s)

\* file name -> locale name
DotPo == B(".po")
FileLocale(s) ==
  LET t == IF HasSuffix(s, DotPo) THEN Take(s, Len(s) - 3) ELSE s
      u == FindOr(t, 95)
      e == IF u = Far THEN 0 ELSE FirstPos(t, u + 1, LAMBDA c : ~IsAlpha(c))
      last == IF u = Far THEN 0 ELSE IF e = 0 THEN Len(t) ELSE e - 1
  IN TLCEval([ i \in 1..Len(t) |-> IF u # Far /\ i > u /\ i <= last THEN ToUpper(t[i]) ELSE t[i] ])
FileLang(name) == IF HasSuffix(name, DotPo) THEN FromEnv(FileLocale(name)) ELSE Undefined
=============================================================================
