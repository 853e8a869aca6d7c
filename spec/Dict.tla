-------------------------------- MODULE Dict --------------------------------
(* A dictionary: translations without context (ent), with context (ctx, by  *)
(* <<context, msgid>>), the plural rule, the charset, and the fallback      *)
(* (<<>> or <<dictionary>>).  A translation is the sequence of its forms.   *)
EXTENDS Charset, Plurals

NewDict(cs) == [ ent |-> EmptyFcn, ctx |-> EmptyFcn, pl |-> 0, cs |-> cs, fb |-> << >> ]

\* additions; result [d, w]: w = 1 if an existing translation changed
AddTo(tab, k, v) ==
  IF k \notin DOMAIN tab \/ tab[k] = <<>> THEN [ t |-> Put(tab, k, v), w |-> 0 ]
  ELSE IF tab[k] = v THEN [ t |-> tab, w |-> 0 ]
  ELSE [ t |-> Put(tab, k, v), w |-> 1 ]
\* a singular addition sets form 0 only
Form0(tab, k, s) == IF k \in DOMAIN tab /\ tab[k] # <<>> THEN [ tab[k] EXCEPT ![1] = s ] ELSE <<s>>

\* cx is <<>> (no context) or <<context>>
AddForms(d, cx, id, forms) ==
  IF cx = <<>> THEN LET r == AddTo(d.ent, id, forms) IN [ d |-> [ d EXCEPT !.ent = r.t ], w |-> r.w ]
  ELSE LET r == AddTo(d.ctx, <<cx[1], id>>, forms) IN [ d |-> [ d EXCEPT !.ctx = r.t ], w |-> r.w ]
AddSingle(d, cx, id, s) ==
  AddForms(d, cx, id, IF cx = <<>> THEN Form0(d.ent, id, s) ELSE Form0(d.ctx, <<cx[1], id>>, s))

Has(d, cx, id) == IF cx = <<>> THEN id \in DOMAIN d.ent ELSE <<cx[1], id>> \in DOMAIN d.ctx
Forms(d, cx, id) == IF cx = <<>> THEN d.ent[id] ELSE d.ctx[<<cx[1], id>>]
\* number of messages listed as candidates by the info report
NCand(d, cx) == IF cx = <<>> THEN Cardinality(DOMAIN d.ent) ELSE Cardinality({ k \in DOMAIN d.ctx : k[1] = cx[1] })
HasCtx(d, c) == \E k \in DOMAIN d.ctx : k[1] = c

\* lookups; result [r, info, err]: the text, and how many messages are reported
RECURSIVE Tr(_, _, _), Trp(_, _, _, _, _)
Tr(d, cx, id) ==
  IF Has(d, cx, id) /\ Forms(d, cx, id) # <<>> /\ Forms(d, cx, id)[1] # <<>>
    THEN [ r |-> Forms(d, cx, id)[1], info |-> 0, err |-> 0 ]
  ELSE IF d.fb = <<>> THEN [ r |-> id, info |-> 1, err |-> 0 ]
  ELSE LET f == Tr(d.fb[1], cx, id) IN [ f EXCEPT !.info = @ + 1 ]
Trp(d, cx, id, pl, n) ==
  LET has == Has(d, cx, id)
      k == FormOf(d.pl, n)
      miss == has /\ k >= Len(Forms(d, cx, id))
      got == has /\ ~miss /\ Forms(d, cx, id)[k+1] # <<>>
      info == IF has THEN 0 ELSE IF cx # <<>> /\ ~HasCtx(d, cx[1]) THEN 1 ELSE 2 + NCand(d, cx)
      err == IF miss THEN 2 ELSE 0
  IN IF got THEN [ r |-> Forms(d, cx, id)[k+1], info |-> 0, err |-> 0 ]
     ELSE IF d.fb = <<>> THEN [ r |-> IF n = 1 THEN id ELSE pl, info |-> info, err |-> err ]
     ELSE LET f == Trp(d.fb[1], cx, id, pl, n) IN [ r |-> f.r, info |-> f.info + info, err |-> f.err + err ]

\* for a negative count the rule's form is not prescribed: any of its forms
RECURSIVE TrpAny(_, _, _, _)
TrpAny(d, cx, id, pl) ==
  LET has == Has(d, cx, id)
      ks == IF d.pl = 0 THEN {0} ELSE IF ByUser(d.pl) THEN {FormOf(d.pl, -1)} ELSE 0..(NPlurals(d.pl) - 1)
      got(k) == has /\ k < Len(Forms(d, cx, id)) /\ Forms(d, cx, id)[k+1] # <<>>
  IN { Forms(d, cx, id)[k+1] : k \in { i \in ks : got(i) } }
     \cup (IF \A k \in ks : got(k) THEN {} ELSE IF d.fb = <<>> THEN {pl} ELSE TrpAny(d.fb[1], cx, id, pl))

\* what enumeration shows
EntSet(d) == { <<k, d.ent[k]>> : k \in DOMAIN d.ent }
CtxSet(d) == { <<k[1], k[2], d.ctx[k]>> : k \in DOMAIN d.ctx }
=============================================================================
