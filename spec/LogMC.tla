-------------------------------- MODULE LogMC --------------------------------
(* Who hears what (C24): all settings of the three sinks (0 none, 1-3 ours,  *)
(* 4 the default one), each change of one of them, each operation that       *)
(* reports something.  The graph of settings is explored completely.         *)
EXTENDS Drive
CONSTANTS NSinks

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
VARIABLES vSk, vH
Sinks == 0..NSinks
Init == vSk = <<1, 2, 3>> /\ vH = <<>>
Cb(sev, k) == [ op |-> "cb", sev |-> sev, sink |-> k ]
Next == \E sev \in 1..3, k \in Sinks : vSk' = [ vSk EXCEPT ![sev] = k ] /\ vH' = Append(vH, Cb(sev, k))
Spec == Init /\ [][Next]_<<vSk, vH>>
View == vSk
\* a file with every kind of message
Messy == Joined(<< K("msgid", ""), K("msgstr", ""), <<>>, K("msgid", "a"), B("junk"), <<>>, K("msgid", "b"), K("msgstr", "\\q"), <<>>, K("msgid", "b"), B("msgstr ") \o q("x") \o B(" y"), <<>>, K("msgid", "c") >>)
Long == Flatten(TLCEval([ i \in 1..80 |-> B("0123456789") ]))
Spelt == << 37, 100, 32, 10, 9, 123, 125, 37, 115, 195, 164, 255, 34, 92, 1 >>
\* operations on a dictionary that is the same each time
Fresh(d) == << CDict(d, Kw.utf8), [ op |-> "setpl", d |-> d, h |-> B("Plural-Forms: nplurals=2; plural=(n != 1);") ], CAdd(d, <<>>, B("a"), B("A")), CAddP(d, <<B("c")>>, B("p"), << B("P0") >>) >>
Noise(d) == << CTr(d, <<>>, B("unknown")), CTr(d, <<>>, Spelt), CTr(d, <<B("c")>>, Long), CTrp(d, <<>>, B("none"), B("nones"), 2), CTrp(d, <<B("c")>>, B("p"), B("ps"), 5), CTr(d, <<>>, B("a")),
               CAdd(d, <<>>, B("a"), B("B")), CAdd(d, <<>>, B("a"), B("B")), CAdd(d, <<>>, B("a"), Spelt), CAddP(d, <<B("c")>>, B("p"), << B("P1"), B("P2") >>), CAddP(d, <<>>, B("a"), << Long >>),
               CAddP(d, <<B("c")>>, B("n"), << B("P1") >>), CAdd(d, <<B("c")>>, B("n"), B("x")) >>
Parses(d) == << CDict(d, Kw.utf8), CParse(d, Messy), CDict(d, Kw.utf8), [ CParse(d, Messy) EXCEPT !.ped = 0 ] >>
Iconv == << [ op |-> "ic", k |-> 1, from |-> Kw.utf8, to |-> B("ISO-8859-1") ], [ op |-> "cv", k |-> 1, t |-> <<97, 255, 98>> ], [ op |-> "cv", k |-> 1, t |-> B("ok") ] >>
All(d) == Fresh(d) \o Noise(d) \o Parses(d) \o Iconv
\* everything once with the sinks apart, then the changes, everything again; in between and at the end one more change
EmitT == Show(<< [ op |-> "logtext" ] >> \o All(1) \o vH' \o All(1) \o << Cb(1, 2), CTr(1, <<>>, B("unknown")), Cb(1, 0), CTr(1, <<>>, B("unknown")), [ op |-> "dump", d |-> 1 ] >>)

\* each of the calls above reports at the severities it should
D0a == FoldLeft(LAMBDA s, e : Apply(s, e).s, Apply(S0, [ op |-> "logtext" ]).s, Fresh(1))
SinkOf(e) == Apply(D0a, e).x.sinks
ASSUME /\ SinkOf(CTr(1, <<>>, B("unknown"))) = <<1, 0, 0>> /\ SinkOf(CTr(1, <<>>, B("a"))) = <<0, 0, 0>>
       /\ SinkOf(CAdd(1, <<>>, B("a"), B("B"))) = <<0, 1, 0>> /\ SinkOf(CAdd(1, <<>>, B("a"), B("A"))) = <<0, 0, 0>>
       /\ SinkOf(CTrp(1, <<B("c")>>, B("p"), B("ps"), 5))[3] > 0
\* results do not depend on who listens
Results == LET run(sk) == LET a == FoldLeft(LAMBDA s, e : LET r == Apply(s.s, e) IN [ s |-> r.s, x |-> IF "r" \in DOMAIN r.x THEN Append(s.x, r.x.r) ELSE s.x ],
                                             [ s |-> [ D0a EXCEPT !.sink = sk ], x |-> <<>> ], Noise(1) \o Parses(1)) IN <<a.s.dict[1], a.x>>
           IN run(vSk) = run(<<1, 2, 3>>)
\* nothing is lost or doubled: the counts at the sinks are the counts by severity
Delivered == LET c == Counted([ sink |-> vSk ], 5, 7, 11)
                 n(k) == (IF vSk[1] = k THEN 5 ELSE 0) + (IF vSk[2] = k THEN 7 ELSE 0) + (IF vSk[3] = k THEN 11 ELSE 0)
             IN \A k \in 1..3 : c.sinks[k] = n(k)
=============================================================================
