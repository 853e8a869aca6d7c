------------------------------- MODULE StreamMC -------------------------------
(* A catalogue is what its bytes are, whatever stream brings them (C33): the *)
(* files of TruncMC, cut at every Every-th byte, from every kind of stream;  *)
(* and one catalogue after another into one dictionary, from two kinds.      *)
EXTENDS TruncMC
CONSTANTS Kinds, Every

ParseK(d, k, f) == [ op |-> "parsek", d |-> d, k |-> k, file |-> f ]
Whole == vCut = Len(Files[vF])
Here == vKind = "end" /\ (Whole \/ vCut % Every = vF % Every)
KindSeq == SetToSortSeq(Kinds, <)
Each == Flatten(TLCEval([ i \in 1..Len(KindSeq) |-> << CDict(i, Kw.utf8), ParseK(i, KindSeq[i], Text) >> ]))
Both == Flatten(TLCEval([ i \in 1..Len(KindSeq) |-> << CDict(1, Kw.utf8), ParseK(1, KindSeq[i], Files[vF]), ParseK(1, KindSeq[(i % Len(KindSeq)) + 1], Files[(vF % Len(Files)) + 1]) >> ]))
OutK == Here => Show(IF Whole THEN Each \o Both ELSE Each)
\* whatever the kind, the same is observed
SameK == Here => LET h == Play(Each) IN \A i \in 1..Len(KindSeq) : KindSeq[i] \notin 9..12 => h[2 * i].x = h[2].x
=============================================================================
