-------------------------------- MODULE AllMC --------------------------------
(* Every known language: its catalogue is found under its own name, whatever *)
(* the case of the country's letters, offered, and backed by the catalogue   *)
(* of the bare language (C14, C18, C21).                                     *)
EXTENDS Drive
CONSTANTS Every
q(s) == <<QUOTE>> \o s \o <<QUOTE>>
Content(k, t) == Joined(<< B("msgid ") \o q(<<>>), B("msgstr ") \o q(B("Content-Type: text/plain; charset=UTF-8\\n")), <<>>,
                           B("msgid ") \o q(B("a")), B("msgstr ") \o q(t), <<>>, B("msgid ") \o q(k), B("msgstr ") \o q(t) >>)
VARIABLES vI
Init == vI = 0
Next == vI = 0 /\ vI' \in { i \in 1..NRows : i % Every = 0 }
Spec == Init /\ [][Next]_vI
L == LStr(vI)
LowerName == LCode(vI) \o (IF LCountry(vI) = <<>> THEN <<>> ELSE <<95>> \o Lower(LCountry(vI))) \o (IF LModifier(vI) = <<>> THEN <<>> ELSE <<64>> \o LModifier(vI)) \o DotPo
Put1(f, d, n, c) == [ op |-> "put", f |-> f, dir |-> B(d), name |-> n, mode |-> "ok", content |-> c ]
Get(m, s) == [ op |-> "get", m |-> m, s |-> s ]
Langs(m) == [ op |-> "langs", m |-> m ]
Own == Content(B("own"), B("OWN"))
Bare == Content(B("bare"), B("BARE"))
Other == Content(B("other"), B("OTHER"))
Qq(a) == [ op |-> "q", k |-> "tr", a |-> <<B(a)>>, n |-> 0 ]
BareName == LCode(vI) \o DotPo
Mgr(m, f) == << [ op |-> "mgr", m |-> m, f |-> f, cs |-> Kw.utf8 ], [ op |-> "adddir", m |-> m, dir |-> B("d"), prec |-> 0 ] >>
\* 4: the catalogues of all its relatives, 5: and its own
Family == { i \in 1..NRows : LCode(i) = LCode(vI) }
RECURSIVE Ups(_)
Ups(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<i>> \o Ups(S \ {i})
Fam(f, S) == LET r == Ups(S) IN TLCEval([ i \in 1..Len(r) |-> Put1(f, "d", LStr(r[i]) \o DotPo, Content(LStr(r[i]), LStr(r[i]))) ])
Asked == LET r == Ups(Family) IN TLCEval([ i \in 1..Len(r) |-> [ op |-> "q", k |-> "tr", a |-> <<LStr(r[i])>>, n |-> 0 ] ])
Relatives == Asked \o << [ op |-> "fs", f |-> 4 ], [ op |-> "fs", f |-> 5 ] >> \o Fam(4, Family \ {vI}) \o Fam(5, Family) \o Mgr(4, 4) \o Mgr(5, 5)
\* 1: its own file among others; 2: the bare one as well, listed first; 3: only the bare one
Setup == << Qq("a"), Qq("own"), Qq("bare"), Qq("other"), [ op |-> "fs", f |-> 1 ], [ op |-> "fs", f |-> 2 ], [ op |-> "fs", f |-> 3 ],
            Put1(1, "d", B("xx.po"), Other), Put1(1, "d", LowerName, Own), Put1(1, "d", (IF LCode(vI) = B("de") THEN B("fr") ELSE B("de")) \o DotPo, Other) >>
         \o (IF BareName = LowerName THEN << Put1(2, "d", BareName, Own) >> ELSE << Put1(2, "d", BareName, Bare), Put1(2, "d", L \o DotPo, Own) >>)
         \o << Put1(3, "d", BareName, Bare) >> \o Mgr(1, 1) \o Mgr(2, 2) \o Mgr(3, 3)
Out == vI = 0 \/ (Show(Relatives \o << Get(4, L), Get(5, L), Langs(5) >>) /\ Show(Setup \o << Get(1, L), Langs(1), Get(2, L), Langs(2), Get(2, LCode(vI)), Get(3, L), Langs(3), [ op |-> "setlang", m |-> 3, s |-> L ], [ op |-> "cur", m |-> 3 ], [ op |-> "getlang", m |-> 3 ] >>))

S == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup \o << Get(1, L), Get(2, L), Get(3, L) >>)
D(m) == Resolve(S.mgr[m].cache, vI)
S45 == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Relatives \o << Get(4, L), Get(5, L) >>)
BareRow == CHOOSE i \in Family : LCountry(i) = <<>> /\ LModifier(i) = <<>>
\* a relative helps out, the bare language always
Kin == vI = 0 \/ LET d4 == Resolve(S45.mgr[4].cache, vI) d5 == Resolve(S45.mgr[5].cache, vI) IN
         /\ Tr(d5, <<>>, L).r = L
         /\ (\E i \in Family : LStr(i) = L /\ Tr(d5, <<>>, B("a")).r = LStr(i))
         /\ (vI # BareRow /\ LCountry(vI) # <<>>) => Has(Resolve(S45.mgr[4].cache, BareRow), <<>>, LStr(BareRow))
Found == vI = 0 \/ (FileLang(LowerName) = vI /\ Tr(D(1), <<>>, B("own")).r = B("OWN") /\ Tr(D(1), <<>>, B("other")).r = B("other"))
Offered == vI = 0 \/ (vI \in Available(S.fs[1], S.mgr[1]) /\ vI \in Available(S.fs[2], S.mgr[2]))
Backed == vI = 0 \/ (/\ Tr(D(2), <<>>, B("a")).r = B("OWN")
                     /\ LCountry(vI) # <<>> => Tr(D(2), <<>>, B("bare")).r = B("BARE")
                     /\ Tr(D(3), <<>>, B("a")).r = B("BARE")
                     /\ LCountry(vI) # <<>> => LCode(BaseLang(vI)) = LCode(vI) /\ LCountry(BaseLang(vI)) = <<>>)
=============================================================================
