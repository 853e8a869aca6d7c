-------------------------------- MODULE PathMC --------------------------------
(* The search path (C19): every sequence of additions with either            *)
(* precedence and removals over three directories with overlapping           *)
(* catalogues.                                                               *)
EXTENDS Drive
CONSTANTS MaxOps, EachGet, Names

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Hdr == << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=UTF-8\\n"), q("Plural-Forms: nplurals=2; plural=(n != 1);\\n"), <<>> >>
Msg(i, s) == << K("msgid", i), K("msgstr", s), <<>> >>
Cx(i, s) == << K("msgctxt", "c"), K("msgid", i), K("msgstr", s), <<>> >>
Pl(i, s) == << K("msgid", i), K("msgid_plural", i), K("msgstr[0]", s \o "0"), K("msgstr[1]", s \o "1"), <<>> >>
\* which directory knows what: all {a, p}; 1 and 2 {b}; 2 and 3 {c, ctx}; one each {d1, d2, d3}; 1 leaves e untranslated, 3 has only a country catalogue besides
DirNames == CASE Names = "plain" -> << B("d1"), B("d2"), B("d/3") >> [] Names = "nested" -> << B("d"), B("d/d"), B("d/") >> [] Names = "near" -> << <<>>, B("D"), B("d") >>
Knows(i) == { "a", "p" } \cup (CASE i = 1 -> { "b", "e1", "x1" } [] i = 2 -> { "b", "c", "cx", "e2" } [] i = 3 -> { "c", "cx", "e2" })
Po(i) == LET n == IF i = 1 THEN "1" ELSE IF i = 2 THEN "2" ELSE "3" IN
         Joined(Hdr \o Msg("a", "A" \o n) \o Pl("p", "P" \o n) \o
                (CASE i = 1 -> Msg("b", "B1") \o Msg("e", "") \o Cx("a", "X1") [] i = 2 -> Msg("b", "B2") \o Msg("c", "C2") \o Cx("c", "Y2") \o Msg("e", "E2")
                   [] i = 3 -> Msg("c", "C3") \o Cx("c", "Y3") \o Msg("e", "E3")))
Put1(i) == [ op |-> "put", f |-> 1, dir |-> DirNames[i], name |-> B("de.po"), mode |-> "ok", content |-> Po(i) ]
AT == Joined(Hdr \o Msg("a", "AT"))
Add(i, p) == [ op |-> "adddir", m |-> 1, dir |-> DirNames[i], prec |-> p ]
Rm(i) == [ op |-> "rmdir", m |-> 1, dir |-> DirNames[i] ]
Ops == << Add(1, 0), Add(1, 1), Rm(1), Add(2, 0), Add(2, 1), Rm(2), Add(3, 0), Add(3, 1), Rm(3) >>
VARIABLES vOps
Init == vOps = <<>>
Next == Len(vOps) < MaxOps /\ \E i \in 1..Len(Ops) : vOps' = Append(vOps, i)
Spec == Init /\ [][Next]_vOps
Qq(k, a, n) == [ op |-> "q", k |-> k, a |-> a, n |-> n ]
Qs == << Qq("tr", <<B("a")>>, 0), Qq("tr", <<B("b")>>, 0), Qq("tr", <<B("c")>>, 0), Qq("tr", <<B("e")>>, 0), Qq("trc", <<B("c"), B("c")>>, 0), Qq("trp", <<B("p"), B("ps")>>, 2) >>
Setup == << [ op |-> "fs", f |-> 1 ], Put1(1), Put1(2), Put1(3), [ op |-> "put", f |-> 1, dir |-> DirNames[2], name |-> B("de_AT.po"), mode |-> "ok", content |-> AT ],
            [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ] >>
Get(l) == [ op |-> "get", m |-> 1, s |-> B(l) ]
Out == Show(Setup \o Qs \o Flatten(TLCEval([ i \in 1..Len(vOps) |-> << Ops[vOps[i]] >> \o (IF EachGet THEN << Get("de") >> ELSE <<>>) ])) \o << Get("de"), Get("de_AT") >>)

\* stated on its own: the order of the directories, highest precedence first
RECURSIVE OrderOf(_)
OrderOf(o) ==
  IF o = <<>> THEN <<>>
  ELSE LET p == OrderOf(SubSeq(o, 1, Len(o) - 1))
           l == Ops[o[Len(o)]]
           d == CHOOSE i \in 1..3 : DirNames[i] = l.dir
       IN IF l.op = "rmdir" THEN SelectSeq(p, LAMBDA x : x # d)
          ELSE IF d \in RangeOf(p) THEN p ELSE IF l.prec = 1 THEN <<d>> \o p ELSE Append(p, d)
Order == OrderOf(vOps)
First(S) == LET h == SelectSeq(Order, LAMBDA d : d \in S) IN IF h = <<>> THEN 0 ELSE h[1]
S1 == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup \o TLCEval([ i \in 1..Len(vOps) |-> Ops[vOps[i]] ]))
D == LET r == Request(S1.fs[1], S1.mgr[1], FromEnv(B("de"))) IN Resolve(r.m.cache, FromEnv(B("de")))
T(pre, n) == B(pre) \o <<48 + n>>
Wins == /\ Tr(D, <<>>, B("a")).r = (IF Order = <<>> THEN B("a") ELSE T("A", Order[1]))
        /\ Tr(D, <<>>, B("b")).r = (LET f == First({1, 2}) IN IF f = 0 THEN B("b") ELSE T("B", f))
        /\ Tr(D, <<>>, B("c")).r = (LET f == First({2, 3}) IN IF f = 0 THEN B("c") ELSE T("C", f))
        /\ Tr(D, <<>>, B("e")).r = (LET f == First({2, 3}) IN IF f = 0 THEN B("e") ELSE T("E", f))
        /\ Tr(D, <<B("c")>>, B("c")).r = (LET f == First({2, 3}) IN IF f = 0 THEN B("c") ELSE T("Y", f))
        /\ Tr(D, <<B("c")>>, B("a")).r = (IF 1 \in RangeOf(Order) THEN B("X1") ELSE B("a"))
        /\ Trp(D, <<>>, B("p"), B("ps"), 2).r = (IF Order = <<>> THEN B("ps") ELSE T("P", Order[1]) \o B("1"))
=============================================================================
