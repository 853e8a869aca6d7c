-------------------------------- MODULE HoldMC --------------------------------
(* Dictionaries a user keeps and adds to (C28): whatever else is asked of    *)
(* the manager in between, a kept dictionary stays the one the manager gives *)
(* and says what it said, until a setting is changed.                        *)
EXTENDS Drive
CONSTANTS MaxOps

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Hdr == << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=UTF-8\\n"), <<>> >>
De == Joined(Hdr \o << K("msgid", "a"), K("msgstr", "A"), <<>>, K("msgid", "b"), K("msgstr", "B") >>)
Aut == Joined(Hdr \o << K("msgid", "a"), K("msgstr", "AT") >>)
PutF(n, c) == [ op |-> "put", f |-> 1, dir |-> B("d"), name |-> B(n), mode |-> "ok", content |-> c ]
Qq(k, a, n) == [ op |-> "q", k |-> k, a |-> a, n |-> n ]
Add(d) == [ op |-> "adddir", m |-> 1, dir |-> B(d), prec |-> 0 ]
Get(l) == [ op |-> "get", m |-> 1, s |-> B(l) ]
GetH(l, h) == [ op |-> "get", m |-> 1, s |-> B(l), h |-> h ]
CurH(h) == [ op |-> "cur", m |-> 1, h |-> h ]
CurD == [ op |-> "cur", m |-> 1 ]
SL(l) == [ op |-> "setlang", m |-> 1, s |-> B(l) ]
HAdd(h, i, s) == [ op |-> "hadd", h |-> h, id |-> B(i), s |-> B(s) ]
Held(h) == [ op |-> "held", h |-> h ]
Fail(n) == [ op |-> "dirfail", f |-> 1, dir |-> B("d"), n |-> n ]
Setup == << [ op |-> "fs", f |-> 1 ], PutF("de.po", De), PutF("de_AT.po", Aut), PutF("fr.po", De), Qq("tr", <<B("a")>>, 0), Qq("tr", <<B("b")>>, 0), Qq("tr", <<B("new")>>, 0),
            [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ], Add("d") >>
Ops == << GetH("de_AT", 1), GetH("de", 2), CurH(3), HAdd(1, "new", "mine1"), HAdd(2, "b", "mine2"), HAdd(3, "a", "mine3"), SL("de_AT"), SL("fr"), SL(""), CurD, Fail(-1), Fail(0), Get("fr"),
          [ op |-> "langs", m |-> 1 ], Add("d"), [ op |-> "rmdir", m |-> 1, dir |-> B("x") ] >>
VARIABLES vH
Init == vH = <<>>
Next == Len(vH) < MaxOps /\ \E i \in 1..Len(Ops) : vH' = Append(vH, i)
Spec == Init /\ [][Next]_vH
Hist == TLCEval([ i \in 1..Len(vH) |-> Ops[vH[i]] ])
Look == << Held(1), Held(2), Held(3) >>
Out == Show(Setup \o Hist \o Look \o << Fail(0), Get("de_AT"), Get("de"), CurD >> \o Look)

S == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup \o Hist)
\* stated on its own: the last edit of a kept dictionary made after it was first loaded is what it says
LoadedAt(l) == LET p == { i \in 1..Len(vH) : vH[i] = (IF l = "de_AT" THEN 1 ELSE 2) } IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : i <= j
Kept == \A h \in 1..2 :
          h \in DOMAIN S.hold =>
            /\ Holds(S, h)
            /\ LET d == HeldDict(S, h) IN
               IF h = 2 THEN Tr(d, <<>>, B("a")).r \in {B("A"), B("mine3")} /\ (Tr(d, <<>>, B("b")).r = B("mine2")) = (\E i \in 1..Len(vH) : vH[i] = 5 /\ \E j \in 1..(i-1) : vH[j] = 2)
               ELSE Tr(d, <<>>, B("a")).r \in {B("AT"), B("mine3")} /\ (Tr(d, <<>>, B("new")).r = B("mine1")) = (\E i \in 1..Len(vH) : vH[i] = 4 /\ \E j \in 1..(i-1) : vH[j] = 1)
=============================================================================
