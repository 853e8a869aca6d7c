------------------------------ MODULE Conform ------------------------------
(* Trace check: each recorded session of the real library (one JSON line    *)
(* [s, ops]) has to be a behaviour of Session.  A step is always taken and  *)
(* the specification's state continues; `vBad` holds the fields that differ. *)
EXTENDS Session, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
\* fields the property under check is about; "all" compares everything
Mask == RangeOf(JsonDeserialize(IOEnv.MASK_FILE))

VARIABLES vTr, vPos, vSt, vIds, vBad

SameSet(seq, S) == RangeOf(seq) = S /\ Len(seq) = Cardinality(S)
SinkCount(log, n) == Cardinality({ j \in 1..Len(log) : log[j][1] = n })
\* an undefined rule has no forms and always gives 0
Fits(want, got, below) == Len(want) = Len(got) /\ \A n \in 1..Len(want) : IF want[n] = -1 THEN got[n] >= 0 /\ (got[n] < below \/ (below = 0 /\ got[n] = 0)) ELSE got[n] = want[n]
\* the messages `was` recorded as log, delivered to the sinks `now`
Like(l, log, e) ==
  LET to == TLCEval([ j \in 1..Len(log) |-> <<l.now[CHOOSE v \in 1..3 : l.was[v] = log[j][1]], log[j][2]>> ])
  IN /\ SelectSeq(to, LAMBDA m : m[1] \in 1..3) = e.log
     /\ \A j \in 1..Len(log) : to[j][1] = 4 => HasSub(e.cerr, to[j][2])
Times(v, q) == Cardinality({ i \in 1..Len(q) : q[i] = v })
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Times(a[i], a) = Times(a[i], b)
\* does the recorded event e agree with expectation x in field f?
Agrees(f, x, e, idmap) ==
  CASE f \in {"ent", "ctx"} -> SameSet(e[f], x[f])
    [] f = "warn"  -> RangeOf(e.warn) = x.warn
    [] f = "infoB" -> x.infoB = Bool01(e.info > 0)
    [] f = "warnB" -> x.warnB = Bool01(e.warn # <<>>)
    [] f = "errB"  -> x.errB = Bool01(e.err # <<>>)
    [] f = "sinks" -> \A n \in 1..3 : SinkCount(e.log, n) = x.sinks[n]
    [] f = "cerrB" -> x.cerrB = Bool01(e.cerr # <<>>)
    [] f = "about" -> e.log = <<>> \/ (\E j \in 1..Len(e.log) : \A i \in 1..Len(x.about) : HasSub(e.log[j][2], x.about[i]))
    [] f = "like"  -> Like(x.like, Traces[vTr].ops[x.like.k].log, e)
    [] f = "rin"   -> e.r \in x.rin
    [] f = "heap"  -> e.heap <= 0
    [] f = "v"     -> \/ Fits(x.v, e.v, IF x.alt = <<>> THEN x.below ELSE 1)
                      \/ x.alt # <<>> /\ Fits(x.alt, e.v, x.below) /\ \A n \in 1..Len(e.v) : e.v[n] < x.below
    [] f \in {"below", "alt"} -> TRUE
    [] f = "maybe" -> (e.def = 0 /\ e.np = 0) \/ (x.maybe > 0 /\ e.def = 1 /\ e.np = x.maybe)
    [] f = "order" -> e.lt + e.gt = x.order /\ (x.order = 0 => e.heq = 1)
    [] f = "rf"    -> e.r = x.rf
    \* files: exactly these (none known: any); directories: not more often than that
    [] f = "fo"    -> x.fo = <<<<>>>> \/ SameBag(e.fo, x.fo)
    [] f = "fl"    -> \A i \in 1..Len(e.fl) : Times(e.fl[i], e.fl) <= Times(e.fl[i], x.fl)
    [] f \in {"seen1", "seen2"} -> IF x[f].n = Cardinality(x[f].all) THEN SameSet(e[f], x[f].all)
                                   ELSE Len(e[f]) = x[f].n /\ RangeOf(e[f]) \subseteq x[f].all /\ Cardinality(RangeOf(e[f])) = x[f].n
    [] f \in {"rs", "told", "pvs", "ents"} -> RangeOf(e[f]) = x[f]
    [] f = "places" -> SameSet(e.places, x.places)
    [] f = "set"   -> SameSet(e.r, x.set)
    [] f = "obj"   -> IF x.obj \in DOMAIN idmap THEN idmap[x.obj] = e.id ELSE \A o \in DOMAIN idmap : idmap[o] # e.id
    [] f = "thr"   -> \A t \in 1..Len(e.t) : \A c \in 1..Len(e.t[t]) :
                        LET want == x.thr[e.t[t][c].c] got == e.t[t][c].r IN
                        \A g \in DOMAIN want : IF g \in {"ent", "ctx"} THEN SameSet(got[g], want[g]) ELSE got[g] = want[g]
    [] f = "re"    -> \A c \in 1..Len(e.re) : LET want == x.re[e.re[c].c] got == e.re[c].r IN
                        \A g \in DOMAIN want : IF g = "same" THEN got.exc = 1 \/ e.exc = 1 \/ got.id = e.id ELSE g \in DOMAIN got /\ (IF g \in {"ent", "ctx"} THEN SameSet(got[g], want[g]) ELSE got[g] = want[g])
    [] OTHER -> e[f] = x[f]
Differs(x, e, idmap) == { f \in DOMAIN x : (f \in Mask \/ "all" \in Mask \/ (f = "rin" /\ "r" \in Mask)) /\ ~Agrees(f, x, e, idmap) }
\* objects still alive: those of the present generation of their manager
Alive(idmap, s) == [ o \in { p \in DOMAIN idmap : p[1] \in DOMAIN s.mgr /\ (p[2][1] = -1 \/ p[2][1] = s.mgr[p[1]].gen) } |-> idmap[o] ]

Init == vTr \in 1..Len(Traces) /\ vPos = 0 /\ vSt = S0 /\ vIds = EmptyFcn /\ vBad = {}
Consume(e) ==
  IF e.op = "crash" THEN UNCHANGED <<vSt, vIds>> /\ vBad' = {"crash"}
  ELSE LET a == Apply(vSt, e)
           live == Alive(vIds, a.s)
       IN /\ vSt' = a.s
          /\ vBad' = Differs(a.x, e, live)
          /\ vIds' = IF "obj" \in DOMAIN a.x THEN Put(live, a.x.obj, e.id) ELSE live
Next == /\ vPos < Len(Traces[vTr].ops) /\ vBad = {}
        /\ vPos' = vPos + 1 /\ vTr' = vTr
        /\ Consume(Traces[vTr].ops[vPos'])
Spec == Init /\ [][Next]_<<vTr, vPos, vSt, vIds, vBad>>

\* never false: prints the differences; the caller rejects the trace
Report == vBad = {} \/
          LET e == Traces[vTr].ops[vPos] IN
          PrintT("@@" \o ToJson([ s |-> Traces[vTr].s, k |-> vPos, op |-> e.op, bad |-> vBad ]))
\* expectation of the last event of a (one-session) trace, for reports
Explain == vPos = 0 \/ vBad = {} \/ LET RECURSIVE Upto(_)
                          Upto(n) == IF n = 0 THEN S0 ELSE IF Traces[vTr].ops[n].op = "crash" THEN Upto(n-1) ELSE Apply(Upto(n-1), Traces[vTr].ops[n]).s
                          e == Traces[vTr].ops[vPos]
                      IN e.op = "crash" \/ PrintT("@E" \o ToJson([ s |-> Traces[vTr].s, k |-> vPos, x |-> Apply(Upto(vPos-1), e).x ]))
=============================================================================
