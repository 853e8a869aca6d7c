-------------------------------- MODULE ResMC --------------------------------
(* A converter's life (C27): set up, used, set up again, refused, destroyed. *)
(* Afterwards nothing is left, as often as it is done.                       *)
EXTENDS Drive
CONSTANTS MaxOps
Ic(op, f, t) == [ op |-> op, k |-> 1, from |-> B(f), to |-> B(t) ]
Cv(t) == [ op |-> "cv", k |-> 1, t |-> t ]
Ops == << Ic("ic", "UTF-8", "ISO-8859-1"), Ic("icc", "UTF-8", "UTF-16LE"), Ic("ic", "UTF-8", "utf-8"), Ic("ic", "NOPE-9", "UTF-8"), Ic("icc", "UTF-8", "NOPE-9"), Ic("ic", "ISO-8859-1", "UTF-8"),
          Cv(<<97, 195, 164>>), Cv(<<195>>), Cv(<<>>), [ op |-> "icd", k |-> 1 ] >>
VARIABLES vH, vHas, vDesc
Init == vH = <<>> /\ vHas = FALSE /\ vDesc = 0
\* descriptors: at most one per converter, given back before the next is taken
Life(o) == CASE o.op \in {"ic", "icc"} -> vHas' = TRUE /\ vDesc' = IF Supported(o.from, o.to) /\ Upper(o.from) # Upper(o.to) THEN 1 ELSE 0
             [] o.op = "cv" -> vHas /\ UNCHANGED <<vHas, vDesc>>
             [] o.op = "icd" -> vHas /\ vHas' = FALSE /\ vDesc' = 0
Next == Len(vH) < MaxOps /\ \E i \in 1..Len(Ops) : Life(Ops[i]) /\ vH' = Append(vH, i)
Spec == Init /\ [][Next]_<<vH, vHas, vDesc>>
Hist == TLCEval([ i \in 1..Len(vH) |-> Ops[vH[i]] ])
Out == Len(vH) = 0 \/ Show(<< [ op |-> "repeat" ] >> \o Hist \o << [ op |-> "end" ] >>)
Bounded == vDesc <= 1 /\ (vDesc = 1 => vHas)
=============================================================================
