-------------------------------- MODULE EachMC --------------------------------
(* Enumeration (C34): after every history of additions, every message once,  *)
(* with its forms, up to where the visitor stops; nothing is changed by it.  *)
EXTENDS DictMC

EachOp(k) == [ op |-> "each", d |-> 1, stop |-> k ]
OutE == Show(<< CDict(1, Kw.utf8) >> \o vOps \o << EachOp(0), EachOp(1), EachOp(2), Dump, EachOp(3), EachOp(0) >>)
\* stated without Dict: as many messages as were named, those named
Named(cxs) == { <<CxOf(vOps[i]), vOps[i].id>> : i \in { j \in 1..Len(vOps) : IsAdd(vOps[j]) /\ (CxOf(vOps[j]) = <<>>) = cxs } }
Shown == LET a == Apply(FoldLeft(LAMBDA s, o : Apply(s, o).s, Apply(S0, CDict(1, Kw.utf8)).s, vOps), EachOp(0)).x IN
         /\ a.ret1 = Cardinality(Named(TRUE)) /\ a.ret2 = Cardinality(Named(FALSE))
         /\ { <<<<>>, e[1]>> : e \in a.seen1.all } = Named(TRUE)
         /\ { << <<e[1]>>, e[2]>> : e \in a.seen2.all } = Named(FALSE)
         /\ \A e \in a.seen1.all : e[2] = FormsOf(Said(<<>>, e[1]))
         /\ \A e \in a.seen2.all : e[3] = FormsOf(Said(<<e[1]>>, e[2]))
=============================================================================
