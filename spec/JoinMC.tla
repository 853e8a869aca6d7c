-------------------------------- MODULE JoinMC --------------------------------
(* Context and message are two texts, not one text joined by whatever may    *)
(* occur in them (C11, C12, C13): messages and contexts that are the same    *)
(* when joined, around every separator.                                      *)
EXTENDS Drive
CONSTANTS Seps, MaxOps

Sep == << <<>>, <<4>>, <<0>>, <<10>>, <<32>>, <<58>>, <<124>>, <<47>>, <<95>>, <<31>>, <<1>>, <<255>>, <<92>>, <<9>>, <<44>>, <<46>> >>
VARIABLES vSep, vOps
vars == <<vSep, vOps>>
c == B("c")
a == B("a")
Slots(x) == << << <<>>, a >>, << <<>>, c \o x \o a >>, << <<>>, x \o a >>, << <<>>, c \o x >>, << <<c>>, a >>, << <<c>>, x \o a >>, << <<c>>, <<>> >>, << <<c \o x>>, a >>, << << c \o x \o a >>, <<>> >>, << << <<>> >>, a >>, << << <<>> >>, c \o x \o a >>, << <<x>>, a >>, << <<a>>, c >> >>
N == 13
Text(i) == B("t") \o <<64 + i>>
AddOf(x, i, k) == LET s == Slots(x)[i] IN IF k = 1 THEN CAdd(1, s[1], s[2], Text(i)) ELSE CAddP(1, s[1], s[2], << Text(i), Text(i) \o B("s") >>)
Init == vSep \in Seps /\ vOps = <<>>
Add(i) == /\ Len(vOps) < MaxOps /\ (IF vOps = <<>> THEN TRUE ELSE vOps[Len(vOps)] < i)
          /\ vOps' = Append(vOps, i) /\ UNCHANGED vSep
Next == \E i \in 1..N : Add(i)
Spec == Init /\ [][Next]_vars
Look(x) == Flatten(TLCEval([ i \in 1..N |-> LET s == Slots(x)[i] IN << CTr(1, s[1], s[2]), CTrp(1, s[1], s[2], B("PL"), 2) >> ]))
Ops == << CDict(1, Kw.utf8), [ op |-> "setpl", d |-> 1, h |-> B("Plural-Forms: nplurals=2; plural=(n != 1);") ] >>
       \o [ k \in 1..Len(vOps) |-> AddOf(Sep[vSep], vOps[k], (vOps[k] + k) % 2) ]
Here == Len(vOps) = MaxOps
Out == Here => Show(Ops \o << [ op |-> "dump", d |-> 1 ] >> \o Look(Sep[vSep]))
\* a message is known exactly if it was added itself, with its own text
Own == LET d == FoldLeft(LAMBDA s, o : Apply(s, o).s, S0, Ops).dict[1] IN
       \A i \in 1..N : LET s == Slots(Sep[vSep])[i] same == { j \in RangeOf(vOps) : Slots(Sep[vSep])[j] = s } IN
         /\ Has(d, s[1], s[2]) = (same # {})
         /\ same # {} => Tr(d, s[1], s[2]).r \in { Text(j) : j \in same }
         /\ same = {} => Tr(d, s[1], s[2]).r = s[2]
===============================================================================
