-------------------------------- MODULE Drive --------------------------------
(* Turning what a model explored into behaviours for the implementation:    *)
(* a sequence of calls, each with what the specification lets be observed.  *)
EXTENDS Session
Play(es) == FoldLeft(LAMBDA a, e : LET r == Apply(a.s, e) IN [ s |-> r.s, h |-> Append(a.h, e @@ [ x |-> r.x ]) ],
                     [ s |-> S0, h |-> <<>> ], es).h
Show(es) == PrintT("@X" \o ToJson(Play(es)))

\* calls
CDict(d, cs) == [ op |-> "dict", d |-> d, cs |-> cs ]
CParse(d, f) == [ op |-> "parse", d |-> d, ped |-> 1, failat |-> -1, file |-> f ]
CParseAt(d, f, at) == [ op |-> "parse", d |-> d, ped |-> 1, failat |-> at, file |-> f ]
CTr(d, cx, id) == IF cx = <<>> THEN [ op |-> "tr", d |-> d, id |-> id ] ELSE [ op |-> "trc", d |-> d, cx |-> cx[1], id |-> id ]
CTrp(d, cx, id, pl, n) == IF cx = <<>> THEN [ op |-> "trp", d |-> d, id |-> id, pl |-> pl, n |-> n ]
                          ELSE [ op |-> "trcp", d |-> d, cx |-> cx[1], id |-> id, pl |-> pl, n |-> n ]
CAdd(d, cx, id, s) == IF cx = <<>> THEN [ op |-> "add", d |-> d, id |-> id, s |-> s ]
                      ELSE [ op |-> "addc", d |-> d, cx |-> cx[1], id |-> id, s |-> s ]
CAddP(d, cx, id, f) == IF cx = <<>> THEN [ op |-> "addp", d |-> d, id |-> id, s |-> f ]
                       ELSE [ op |-> "addcp", d |-> d, cx |-> cx[1], id |-> id, s |-> f ]
Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Joined(ls) == FoldLeft(LAMBDA a, l : a \o l \o <<NL>>, <<>>, ls)
\* sequences over S of length lo..hi
SeqsOf(S, lo, hi) == UNION { [1..n -> S] : n \in lo..hi }
=============================================================================
