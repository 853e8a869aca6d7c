------------------------------ MODULE Session ------------------------------
(* The library as its users see it: Apply(s, e) is the effect of public     *)
(* call e in state s and everything that can be observed of it (x).  Both   *)
(* the exploring models (xxxMC) and the trace check (Conform) use Apply.      *)
EXTENDS Manager

S0 == [ dict |-> EmptyFcn, conv |-> EmptyFcn, form |-> EmptyFcn, fs |-> EmptyFcn, mgr |-> EmptyFcn, ufs |-> EmptyFcn,
        q |-> <<>>, hold |-> EmptyFcn, sink |-> <<1, 2, 3>>, logtext |-> FALSE, re |-> <<>>, sw |-> <<>>, ask |-> <<>>, wild |-> FALSE, n |-> 0, said |-> <<>> ]

\* log observations: numbers of info, warning and error messages
Counted(s, ninfo, nwarn, nerr) ==
  LET n == <<ninfo, nwarn, nerr>>
      at(k) == (IF s.sink[1] = k THEN n[1] ELSE 0) + (IF s.sink[2] = k THEN n[2] ELSE 0) + (IF s.sink[3] = k THEN n[3] ELSE 0)
  IN [ sinks |-> <<at(1), at(2), at(3)>>, cerrB |-> Bool01(at(4) > 0) ]
LogX(s, x, ninfo, nwarn, nerr) ==
  IF s.logtext THEN x @@ Counted(s, ninfo, nwarn, nerr)
  ELSE x @@ [ infoB |-> Bool01(ninfo > 0), warnB |-> Bool01(nwarn > 0), errB |-> Bool01(nerr > 0) ]
Quiet(s, x) == LogX(s, x, 0, 0, 0)

\* what a message about an addition has to contain (if there is one)
AddX(s, id, t, w) == IF s.logtext THEN Counted(s, 0, w, 0) @@ [ about |-> <<id, t>> ] ELSE LogX(s, EmptyFcn, 0, w, 0)

\* what a dump shows
DumpX(d) == [ ent |-> EntSet(d), ctx |-> CtxSet(d), np |-> NPlurals(d.pl), pv |-> PvTab[d.pl] ]

Ret(s, x) == [ s |-> s, x |-> x ]
\* the session left what is modelled (charsets): no statement from here on
Wild(s) == [ s |-> [ s EXCEPT !.wild = TRUE ], x |-> EmptyFcn ]
SetDict(s, i, d) == [ s EXCEPT !.dict = Put(@, i, d) ]
RD(s, i) == Resolve(s.dict, i)

Query(d, q) ==
  CASE q.k = "tr"   -> Tr(d, <<>>, q.a[1])
    [] q.k = "trp"  -> Trp(d, <<>>, q.a[1], q.a[2], q.n)
    [] q.k = "trc"  -> Tr(d, <<q.a[1]>>, q.a[2])
    [] q.k = "trcp" -> Trp(d, <<q.a[1]>>, q.a[2], q.a[3], q.n)
QueryAll(d, qs) == TLCEval([ i \in 1..Len(qs) |-> Query(d, qs[i]).r ])

------------------------------------------------------------------------------
(* the real file system, as far as it is used: directories, files, links    *)
UDir(s, d) == d \in DOMAIN s.ufs /\ s.ufs[d].k = "dir"
IsChild(p, d) == Len(p) > Len(d) + 1 /\ HasPrefix(p, d) /\ p[Len(d)+1] = 47 /\ \A i \in (Len(d)+2)..Len(p) : p[i] # 47
Children(s, d) == { Drop(p, Len(d) + 1) : p \in { x \in DOMAIN s.ufs : IsChild(x, d) } }
UTarget(s, p) == IF p \in DOMAIN s.ufs /\ s.ufs[p].k = "link" THEN s.ufs[p].c ELSE p
SortedSeq(S) == SetToSortSeq(S, LexLess)
USeq(s, d) ==
  LET n == SortedSeq(Children(s, d)) IN
  TLCEval([ i \in 1..Len(n) |->
      LET p == UTarget(s, d \o <<47>> \o n[i]) IN
      IF p \notin DOMAIN s.ufs THEN [ name |-> n[i], mode |-> "null", content |-> <<>>, at |-> -1 ]
      ELSE IF s.ufs[p].k = "dir" THEN [ name |-> n[i], mode |-> "dir", content |-> <<>>, at |-> -1 ]
      ELSE [ name |-> n[i], mode |-> "ok", content |-> s.ufs[p].c, at |-> -1 ] ])
FsOf(s, m) == IF m.f # 0 THEN s.fs[m.f]
              ELSE [ d \in RangeOf(m.path) |-> [ fail |-> ~UDir(s, d), files |-> IF UDir(s, d) THEN USeq(s, d) ELSE <<>> ] ]

------------------------------------------------------------------------------
SetMgr(s, k, m) == [ s EXCEPT !.mgr = Put(@, k, m) ]
ModeRec(e) == IF e.mode \in {"fail", "xfail"} THEN [ mode |-> e.mode, at |-> e.at ] ELSE [ mode |-> e.mode, at |-> -1 ]
DirAt(s, e) == DirOf(s.fs[e.f], e.dir)
SetDir(s, e, d) == [ s EXCEPT !.fs = Put(@, e.f, Put(s.fs[e.f], e.dir, d)) ]

DictX(s, d, m, key) ==
  DumpX(d) @@ [ r |-> QueryAll(d, s.q), dcs |-> d.cs ] @@ [ exc |-> 0, excw |-> 0, open |-> 0, obj |-> <<m, key>> ]
\* the file system's own exception
NoDictX == [ exc |-> 1, excw |-> 1, open |-> 0 ]
\* a dictionary kept by the user: h refers to a manager's dictionary as long as that manager keeps it
Hold(s, e, m, gen, lang) == IF "h" \in DOMAIN e THEN [ s EXCEPT !.hold = Put(@, e.h, [ m |-> m, gen |-> gen, l |-> lang ]) ] ELSE s
Unhold(s, e) == IF "h" \in DOMAIN e THEN [ s EXCEPT !.hold = [ k \in DOMAIN @ \ {e.h} |-> @[k] ] ] ELSE s
Holds(s, h) == h \in DOMAIN s.hold /\ s.hold[h].m \in DOMAIN s.mgr /\ (s.hold[h].l = 0 \/ s.mgr[s.hold[h].m].gen = s.hold[h].gen)
HeldRaw(s, h) == LET k == s.hold[h] IN IF k.l = 0 THEN s.mgr[k.m].empty ELSE s.mgr[k.m].cache[k.l]
HeldDict(s, h) == LET k == s.hold[h] IN IF k.l = 0 THEN s.mgr[k.m].empty ELSE Resolve(s.mgr[k.m].cache, k.l)
HeldKey(s, h) == LET k == s.hold[h] IN IF k.l = 0 THEN <<-1, 0>> ELSE <<k.gen, k.l>>
SetHeld(s, h, d) == LET k == s.hold[h] IN IF k.l = 0 THEN [ s EXCEPT !.mgr[k.m].empty = d ] ELSE [ s EXCEPT !.mgr[k.m].cache = Put(@, k.l, d) ]

GetLang(s, e, lang) ==
  LET m == s.mgr[e.m]
      r == Request(FsOf(s, m), m, lang)
      s2 == SetMgr(s, e.m, r.m)
      Asks(x) == IF m.f = 0 THEN x ELSE IF r.ok THEN [ x EXCEPT !.x = @ @@ [ fo |-> r.fo, fl |-> r.fl ] ] ELSE [ x EXCEPT !.x = @ @@ [ fo |-> <<<<>>>> ] ]
      L(x) == [ Asks(x) EXCEPT !.x = @ @@ [ warnB |-> r.warn, errB |-> r.err ] @@ (IF m.f = 0 \/ r.blur \/ s.logtext THEN EmptyFcn ELSE [ places |-> r.at ]) ]
  IN IF r.unk THEN Wild(s) ELSE IF ~r.ok THEN L(Ret(Unhold(s2, e), NoDictX))
     ELSE L(Ret(Hold(s2, e, e.m, r.m.gen, lang), DictX(s, Resolve(r.m.cache, lang), e.m, <<r.m.gen, lang>>)))

\* forms for counts ns (-1: no statement, but below the number of forms)
Counts(f, ns) ==
  LET v == TLCEval([ i \in 1..Len(ns) |-> IF ns[i] < 0 THEN -1 ELSE FormOf(f.r, ns[i]) ])
      below == IF f.m # <<>> THEN f.m[1].np ELSE NPlurals(f.r)
  IN [ v |-> v, below |-> below,
       alt |-> IF f.m = <<>> THEN <<>> ELSE TLCEval([ i \in 1..Len(ns) |-> IF ns[i] < 0 THEN -1 ELSE Eval(f.m[1].ast, ns[i]) ]) ]

\* what one thread gets of a call
MsgX(i, w, e) == [ ni |-> i, nw |-> w, ne |-> e ]
ThrParse(cs, f) == LET p == Parse(f, -1, TRUE, TRUE, NewDict(cs)) IN
  IF p.exc = 2 THEN EmptyFcn ELSE [ exc |-> p.exc ] @@ DumpX(p.d) @@ MsgX(0, Len(p.warns), Len(p.errs))
ThrCall(c) ==
  CASE c.k = "env" -> LangRec(FromEnv(c.a))
    [] c.k = "name" -> LangRec(FromName(c.a))
    [] c.k = "plural" -> LET r == FromHeader(c.a) IN
         [ def |-> Bool01(r # 0), np |-> NPlurals(r), v |-> [ i \in 1..25 |-> FormOf(r, i - 1) ] ]
    [] c.k = "parse" -> ThrParse(Kw.utf8, c.a)
    [] c.k = "latin" -> ThrParse(B("ISO-8859-1"), c.a)
    [] c.k = "conv" -> LET v == Convert(MkConv(Kw.utf8, B("ISO-8859-1")), c.a) IN [ r |-> v.r ] @@ MsgX(0, 0, v.err)
    [] c.k = "fn" -> [ r |-> FileLocale(c.a) ]
    [] c.k = "dict" ->
         LET S(k) == c.a \o <<48 + k>>
             cx == <<B("c")>>
             d1 == AddSingle([ NewDict(Kw.utf8) EXCEPT !.pl = FromHeader(B("Plural-Forms: nplurals=2; plural=(n != 1);")) ], <<>>, c.a, S(1))
             d2 == AddSingle(d1.d, <<>>, c.a, S(2))
             d == AddForms(d2.d, cx, c.a, <<S(3), S(4)>>).d
             q == << Tr(d, <<>>, c.a), Tr(d, <<>>, B("unknown")), Tr(d, cx, c.a), Tr(d, <<B("d")>>, c.a),
                     Trp(d, cx, c.a, B("pl"), 1), Trp(d, cx, c.a, B("pl"), 2), Trp(d, <<>>, c.a, B("pl"), 5) >>
         IN DumpX(d) @@ [ q |-> [ i \in 1..7 |-> q[i].r ], nw |-> d1.w + d2.w ]
    [] c.k = "langs" -> [ r |-> << B("de"), B("fr") >> ]
    [] c.k = "unix" -> LET p == Parse(c.a, -1, TRUE, TRUE, NewDict(Kw.utf8)) IN IF p.exc = 2 THEN EmptyFcn ELSE DumpX(p.d) @@ [ r |-> Tr(p.d, <<>>, B("a")).r, langs |-> << B("de") >> ]
    [] c.k = "mgr" -> LET p == Parse(c.a, -1, TRUE, TRUE, NewDict(Kw.utf8)) IN IF p.exc = 2 THEN EmptyFcn ELSE DumpX(p.d) @@ [ r |-> Tr(p.d, <<>>, B("a")).r ]

\* what any number of threads get of one dictionary: what one gets
SharedX(s, d) ==
  [ rs |-> {QueryAll(d, s.q)}, told |-> {<<0, 0, 0>>},
       pvs |-> {<<d.cs, NPlurals(d.pl), [ i \in 1..31 |-> FormOf(d.pl, i - 1) ]>>},
       entn |-> LET n == Cardinality(EntSet(d)) m == Cardinality(CtxSet(d)) IN <<n, n, m, m>>, ents |-> { <<<<>>, x[1], x[2]>> : x \in EntSet(d) } \cup { << <<x[1]>>, x[2], x[3]>> : x \in CtxSet(d) } ]

\* a visitor stopped early has seen some of the messages, each at most once
Visits(k, all, stop) ==
  LET n == Cardinality(all)
      cut == stop > 0 /\ stop <= n
      base == [ thrown |-> Bool01(cut), ret |-> IF cut THEN -1 ELSE n, odd |-> 0 ]
      seen == [ all |-> all, n |-> IF cut THEN stop ELSE n ]
  IN IF k = "1" THEN [ thrown1 |-> base.thrown, ret1 |-> base.ret, odd1 |-> 0, seen1 |-> seen ]
     ELSE [ thrown2 |-> base.thrown, ret2 |-> base.ret, odd2 |-> 0, seen2 |-> seen ]

Apply0(s, e) ==
  CASE s.wild -> Ret(s, EmptyFcn)
    [] e.op = "cb" -> Ret([ s EXCEPT !.sink = [ @ EXCEPT ![e.sev] = e.sink ], !.logtext = TRUE ], EmptyFcn)
    [] e.op = "logtext" -> Ret([ s EXCEPT !.logtext = TRUE ], EmptyFcn)
    \* ---- dictionaries and parser
    [] e.op = "dict" -> Ret(SetDict(s, e.d, NewDict(e.cs)), EmptyFcn)
    [] e.op = "parse" ->
         LET p == IF "pad" \in DOMAIN e THEN Padded(e.pad, e.file, e.failat, e.ped = 1, TRUE, s.dict[e.d]) ELSE Parse(e.file, e.failat, e.ped = 1, TRUE, s.dict[e.d])
             x == DumpX(p.d) @@ [ exc |-> p.exc ]
         IN IF p.exc = 2 THEN Wild(s) ELSE
            Ret(SetDict(s, e.d, p.d),
                IF s.logtext THEN x @@ Counted(s, 0, Len(p.warns), Len(p.errs))
                ELSE x @@ [ warn |-> RangeOf(p.warns), err |-> p.errs ])
    [] e.op = "parsek" ->
         \* streams of kind 9 to 12 have nothing more to give
         LET p == Parse(IF e.k \in 9..12 THEN <<>> ELSE e.file, -1, TRUE, TRUE, s.dict[e.d])
             x == DumpX(p.d) @@ [ exc |-> p.exc ] @@ (IF p.exc = 0 /\ e.k \notin 9..11 THEN [ left |-> 0 ] ELSE EmptyFcn)
         IN IF p.exc = 2 THEN Wild(s) ELSE
            Ret(SetDict(s, e.d, p.d),
                IF s.logtext THEN x @@ Counted(s, 0, Len(p.warns), Len(p.errs))
                ELSE x @@ [ warn |-> RangeOf(p.warns), err |-> p.errs ])
    \* enumeration: every message once; stopped by the visitor's own exception at the stop-th
    [] e.op = "each" -> LET d == s.dict[e.d] IN
         Ret(s, Visits("1", EntSet(d), e.stop) @@ Visits("2", CtxSet(d), e.stop))
    [] e.op = "dump" -> Ret(s, DumpX(s.dict[e.d]))
    [] e.op \in {"tr", "trp", "trc", "trcp"} ->
         LET d == RD(s, e.d)
             dcx == IF e.op \in {"tr", "trp"} THEN <<>> ELSE <<e.cx>>
             r == CASE e.op = "tr"   -> Tr(d, <<>>, e.id)
                    [] e.op = "trp"  -> Trp(d, <<>>, e.id, e.pl, e.n)
                    [] e.op = "trc"  -> Tr(d, <<e.cx>>, e.id)
                    [] e.op = "trcp" -> Trp(d, <<e.cx>>, e.id, e.pl, e.n)
             has == Has(d, IF e.op \in {"tr", "trp"} THEN <<>> ELSE <<e.cx>>, e.id)
             neg == e.op \in {"trp", "trcp"} /\ e.n < 0
             x == [ r |-> r.r ]
         IN Ret(s, IF neg THEN [ rin |-> TrpAny(d, dcx, e.id, e.pl) ] ELSE IF s.logtext THEN x @@ Counted(s, r.info, 0, r.err) @@ [ about |-> <<e.id>> ]
                   ELSE x @@ [ infoB |-> Bool01(r.info > 0), warnB |-> 0, errB |-> Bool01(r.err > 0) ])
    [] e.op = "add" -> LET a == AddSingle(s.dict[e.d], <<>>, e.id, e.s) IN Ret(SetDict(s, e.d, a.d), AddX(s, e.id, e.s, a.w))
    [] e.op = "addp" -> LET a == AddForms(s.dict[e.d], <<>>, e.id, e.s) IN Ret(SetDict(s, e.d, a.d), AddX(s, e.id, IF e.s = <<>> THEN <<>> ELSE e.s[1], a.w))
    [] e.op = "addc" -> LET a == AddSingle(s.dict[e.d], <<e.cx>>, e.id, e.s) IN Ret(SetDict(s, e.d, a.d), AddX(s, e.id, e.s, a.w))
    [] e.op = "addcp" -> LET a == AddForms(s.dict[e.d], <<e.cx>>, e.id, e.s) IN Ret(SetDict(s, e.d, a.d), AddX(s, e.id, IF e.s = <<>> THEN <<>> ELSE e.s[1], a.w))
    [] e.op = "setpl" -> Ret(SetDict(s, e.d, [ s.dict[e.d] EXCEPT !.pl = FromHeader(e.h) ]), EmptyFcn)
    [] e.op = "setplf" -> Ret(SetDict(s, e.d, [ s.dict[e.d] EXCEPT !.pl = NRules + e.u ]), EmptyFcn)
    [] e.op = "fb" -> Ret(SetDict(s, e.d, [ s.dict[e.d] EXCEPT !.fb = <<e.f>> ]), EmptyFcn)
    [] e.op = "charset" -> Ret(s, [ r |-> s.dict[e.d].cs ])
    \* ---- charset conversion
    [] e.op \in {"ic", "icc"} ->
         IF Support(e.from, e.to) = "unknown" THEN Wild(s)
         ELSE IF Supported(e.from, e.to) THEN Ret([ s EXCEPT !.conv = Put(@, e.k, MkConv(e.from, e.to)) ], [ exc |-> 0 ])
         ELSE Ret([ s EXCEPT !.conv = Put(@, e.k, NoConv) ], [ exc |-> 1 ])
    [] e.op = "icd" -> Ret([ s EXCEPT !.conv = [ k \in DOMAIN @ \ {e.k} |-> @[k] ] ], EmptyFcn)
    [] e.op = "cv" -> LET c == Convert(s.conv[e.k], e.t) IN IF c.unk THEN Wild(s) ELSE Ret(s, LogX(s, [ r |-> c.r ], 0, 0, c.err))
    \* ---- plural rules
    \* a header the library does not list is undefined or means what it says: m
    [] e.op = "pf" ->
         LET r == FromHeader(e.h)
             h == IF r = 0 THEN ParseHeaderRule(NoSpace(e.h)) ELSE [ ok |-> FALSE ]
             m == IF h.ok THEN <<h>> ELSE <<>>
         IN Ret([ s EXCEPT !.form = Put(@, e.k, [ r |-> r, m |-> m ]) ],
                IF r # 0 THEN [ def |-> 1, np |-> NPlurals(r) ] ELSE [ maybe |-> IF m = <<>> THEN 0 ELSE h.np ])
    [] e.op = "pe" -> Ret(s, Counts(s.form[e.k], e.n))
    [] e.op = "per" -> Ret(s, Counts(s.form[e.k], TLCEval([ i \in 1..(e.hi - e.lo + 1) |-> e.lo + i - 1 ])))
    \* rules that differ in what they say are unequal, the same rule is equal to itself
    [] e.op = "peq" ->
         LET f == s.form[e.k] g == s.form[e.j]
             eq == IF f.r = g.r /\ (f.r # 0 \/ (f.m = <<>> /\ g.m = <<>>) \/ f = g) THEN <<1>>
                   ELSE IF (f.r = 0 /\ f.m # <<>>) \/ (g.r = 0 /\ g.m # <<>>) THEN <<>>
                   ELSE IF NPlurals(f.r) # NPlurals(g.r) \/ PvTab[f.r] # PvTab[g.r] THEN <<0>> ELSE <<>>
         IN Ret(s, [ sym |-> 1 ] @@ (IF eq = <<>> THEN EmptyFcn ELSE [ eq |-> eq[1] ]))
    [] e.op = "psweep" -> Ret(s, [ bad |-> 0 ])
    \* ---- languages
    [] e.op = "spec" -> Ret(s, [ r |-> LangRec(FromSpec(e.l, e.c, e.m)) ])
    [] e.op = "env" -> Ret(s, [ r |-> LangRec(FromEnv(e.s)) ])
    [] e.op = "name" -> Ret(s, [ r |-> LangRec(FromName(e.s)) ])
    [] e.op = "match" ->
         LET x == FromEnv(e.a) y == FromEnv(e.b) IN
         Ret(s, [ r |-> Match(x, y), eq |-> Bool01(x = y), ne |-> Bool01(x # y), order |-> Bool01(x # y) ])
    \* languages as keys of containers, made in several ways: each once; order, equality and hash agree
    [] e.op = "keys" -> LET K == { FromEnv(e.l[i]) : i \in 1..Len(e.l) } IN
         Ret(s, [ nset |-> Cardinality(K), nhash |-> Cardinality(K), neq |-> Cardinality(K), bad |-> 0 ])
    [] e.op = "fn" -> Ret(s, [ r |-> FileLocale(e.s) ])
    \* ---- file systems
    [] e.op = "fs" -> Ret([ s EXCEPT !.fs = Put(@, e.f, EmptyFcn) ], EmptyFcn)
    [] e.op = "put" ->
         Ret(SetDir(s, e, [ DirAt(s, e) EXCEPT !.files = Append(@, ModeRec(e) @@ [ name |-> e.name, content |-> e.content ]) ]), EmptyFcn)
    [] e.op = "mode" ->
         Ret(SetDir(s, e, [ DirAt(s, e) EXCEPT !.files = [ i \in 1..Len(@) |-> IF @[i].name = e.name THEN ModeRec(e) @@ @[i] ELSE @[i] ] ]), EmptyFcn)
    [] e.op = "dirfail" -> Ret(SetDir(s, e, [ DirAt(s, e) EXCEPT !.fail = (e.n # 0) ]), EmptyFcn)
    [] e.op = "q" -> Ret([ s EXCEPT !.q = Append(@, [ k |-> e.k, a |-> e.a, n |-> e.n ]) ], EmptyFcn)
    \* ---- managers
    [] e.op = "mgr" -> Ret(SetMgr(s, e.m, NewMgr(e.f, e.cs)), EmptyFcn)
    [] e.op = "mdel" -> Ret([ s EXCEPT !.mgr = [ k \in DOMAIN @ \ {e.m} |-> @[k] ] ], EmptyFcn)
    [] e.op = "adddir" -> Ret(SetMgr(s, e.m, AddDir(s.mgr[e.m], e.dir, e.prec = 1)), Quiet(s, EmptyFcn))
    [] e.op = "rmdir" -> Ret(SetMgr(s, e.m, RmDir(s.mgr[e.m], e.dir)), Quiet(s, EmptyFcn))
    [] e.op = "setlang" -> Ret(SetMgr(s, e.m, [ s.mgr[e.m] EXCEPT !.cur = FromEnv(e.s) ]), Quiet(s, EmptyFcn))
    [] e.op = "getlang" -> Ret(s, [ r |-> LStr(s.mgr[e.m].cur) ])
    [] e.op = "setcs" -> Ret(SetMgr(s, e.m, SetCs(s.mgr[e.m], e.cs)), Quiet(s, EmptyFcn))
    [] e.op = "setfuzzy" -> Ret(SetMgr(s, e.m, SetFuzzy(s.mgr[e.m], e.v = 1)), Quiet(s, [ rf |-> e.v ]))
    [] e.op = "get" -> GetLang(s, e, FromEnv(e.s))
    [] e.op = "cur" ->
         IF s.mgr[e.m].cur # 0 THEN GetLang(s, e, s.mgr[e.m].cur)
         ELSE LET d == s.mgr[e.m].empty IN
              Ret(Hold(s, e, e.m, -1, 0), DumpX(d) @@ [ r |-> QueryAll(d, s.q), exc |-> 0, excw |-> 0, open |-> 0, obj |-> <<e.m, <<-1, 0>> >>, warnB |-> 0, errB |-> 0 ])
    [] e.op = "held" -> Ret(s, IF ~Holds(s, e.h) THEN EmptyFcn ELSE LET d == HeldDict(s, e.h) IN
                                  DumpX(d) @@ [ r |-> QueryAll(d, s.q), dcs |-> d.cs, obj |-> <<s.hold[e.h].m, HeldKey(s, e.h)>> ])
    [] e.op = "hadd" -> IF ~Holds(s, e.h) THEN Ret(s, EmptyFcn) ELSE
         LET a == AddSingle(HeldRaw(s, e.h), <<>>, e.id, e.s) IN Ret(SetHeld(s, e.h, a.d), AddX(s, e.id, e.s, a.w))
    [] e.op = "haddcp" -> IF ~Holds(s, e.h) THEN Ret(s, EmptyFcn) ELSE
         LET a == AddForms(HeldRaw(s, e.h), <<e.cx>>, e.id, e.s) IN Ret(SetHeld(s, e.h, a.d), AddX(s, e.id, IF e.s = <<>> THEN <<>> ELSE e.s[1], a.w))
    \* ---- resources: with everything given back nothing is left, however often
    [] e.op = "repeat" -> Ret(s, EmptyFcn)
    \* ---- calls made within callbacks
    [] e.op = "reent" -> Ret([ s EXCEPT !.re = TLCEval([ i \in 1..Len(e.calls) |-> e.calls[i] @@ [ x |-> IF e.calls[i].k = "own" THEN EmptyFcn ELSE ThrCall(e.calls[i]) ] ]) ], EmptyFcn)
    \* a language to be chosen within the first callback of the next call
    [] e.op \in {"sw", "ask"} -> Ret(s, EmptyFcn)
    \* ---- the process's locale: nothing depends on it
    [] e.op = "locale" -> Ret(s, EmptyFcn)
    \* ---- much use of other objects: nothing here depends on it
    [] e.op = "wear" -> Ret(s, EmptyFcn)
    [] e.op = "end" -> Ret([ S0 EXCEPT !.sink = s.sink, !.logtext = s.logtext, !.n = s.n ], [ heap |-> 0, iconv |-> 0, streams |-> 0, fds |-> 0 ])
    [] e.op = "langs" ->
         LET m == s.mgr[e.m] fs == FsOf(s, m) IN
         IF ~ListOk(fs, m) THEN Ret(s, [ exc |-> 1, excw |-> 1 ])
         ELSE Ret(s, (IF m.f = 0 THEN EmptyFcn ELSE [ fo |-> <<>>, fl |-> m.path ]) @@ [ exc |-> 0, excw |-> 0, set |-> { LStr(l) : l \in Available(fs, m) }, undef |-> 0 ])
    \* ---- the real file system
    [] e.op = "umk" -> Ret([ s EXCEPT !.ufs = Put(@, e.path, [ k |-> "dir", c |-> <<>> ]) ], EmptyFcn)
    [] e.op = "uw" -> Ret([ s EXCEPT !.ufs = Put(@, e.path, [ k |-> "file", c |-> e.content ]) ], EmptyFcn)
    [] e.op = "uln" -> Ret([ s EXCEPT !.ufs = Put(@, e.path, [ k |-> "link", c |-> e.to ]) ], EmptyFcn)
    [] e.op = "urm" -> Ret([ s EXCEPT !.ufs = [ p \in { x \in DOMAIN @ : x # e.path /\ ~HasPrefix(x, e.path \o <<47>>) } |-> @[p] ] ], EmptyFcn)
    [] e.op = "uls" -> IF UDir(s, e.dir) THEN Ret(s, [ exc |-> 0, r |-> SortedSeq(Children(s, e.dir)) ]) ELSE Ret(s, [ exc |-> 1 ])
    [] e.op = "ucat" ->
         LET p == UTarget(s, e.path) IN
         IF p \notin DOMAIN s.ufs THEN Ret(s, [ ok |-> 0 ])
         ELSE IF s.ufs[p].k = "dir" THEN Ret(s, [ r |-> <<>> ])
         ELSE Ret(s, [ ok |-> 1, r |-> s.ufs[p].c ])
    \* ---- threads: every call gives what it gives alone
    [] e.op = "share" -> Ret(s, IF e.k = 1 /\ ~Holds(s, e.a) THEN EmptyFcn ELSE SharedX(s, IF e.k = 1 THEN HeldDict(s, e.a) ELSE RD(s, e.a)))
    [] e.op = "thr" -> Ret(s, [ thr |-> [ i \in 1..Len(e.calls) |-> ThrCall(e.calls[i]) ] ])

(* The same call in the same state says the same, whoever listens: once all *)
(* severities could be told apart, the texts of later equal calls are known.*)
SayKey(s, e) ==
  CASE e.op = "parse" -> <<e.op, e.file, e.failat, e.ped, s.dict[e.d]>>
    [] e.op = "tr"    -> <<e.op, e.id, RD(s, e.d)>>
    [] e.op = "trp"   -> <<e.op, e.id, e.pl, e.n, RD(s, e.d)>>
    [] e.op = "trc"   -> <<e.op, e.cx, e.id, RD(s, e.d)>>
    [] e.op = "trcp"  -> <<e.op, e.cx, e.id, e.pl, e.n, RD(s, e.d)>>
    [] e.op \in {"add", "addp"}   -> <<e.op, e.id, e.s, s.dict[e.d]>>
    [] e.op \in {"addc", "addcp"} -> <<e.op, e.cx, e.id, e.s, s.dict[e.d]>>
    [] e.op = "cv"    -> <<e.op, e.t, s.conv[e.k]>>
    [] OTHER -> <<e.op>>
\* what a call within a callback gives: what it gives alone.  The manager at work gives
\* dictionaries of unrelated languages, too; those being loaded are incomplete.
LangOf(s, e) == IF e.op = "get" THEN FromEnv(e.s) ELSE IF e.op = "cur" THEN s.mgr[e.m].cur ELSE 0
Within(s, e, c) ==
  IF c.k # "own" THEN c.x
  ELSE IF e.op \notin {"get", "cur", "langs"} THEN EmptyFcn
  ELSE LET m == s.mgr[e.m]
           l == IF c.a = <<>> THEN m.cur ELSE FromEnv(c.a)
           o == LangOf(s, e)
       IN IF l = 0 THEN [ exc |-> 0 ] @@ DumpX(m.empty) @@ [ r |-> QueryAll(m.empty, s.q) ]
          ELSE IF o # 0 /\ LCode(l) = LCode(o) THEN (IF l = o THEN [ same |-> 1 ] ELSE EmptyFcn)
          ELSE LET r == Request(FsOf(s, m), m, l) IN
               IF r.unk THEN EmptyFcn ELSE IF ~r.ok THEN [ exc |-> 1 ]
               ELSE LET d == Resolve(r.m.cache, l) IN [ exc |-> 0 ] @@ DumpX(d) @@ [ r |-> QueryAll(d, s.q) ]
\* the language chosen within a callback holds from then on: the call at work is for what it was asked for
CallsBack(s, e) ==
  /\ e.op \in {"get", "cur", "langs"}
  /\ LET m == s.mgr[e.m] l == LangOf(s, e) IN m.f # 0 /\ m.path # <<>> /\ (e.op = "langs" \/ (l # 0 /\ l \notin DOMAIN m.cache))
Switched(s, e, r) ==
  IF e.op = "sw" THEN [ r EXCEPT !.s.sw = <<e.m, FromEnv(e.s)>> ]
  ELSE IF s.sw = <<>> \/ r.s.wild \/ e.op = "ask" THEN r
  ELSE LET k == s.sw[1] IN
       IF CallsBack(s, e) /\ k \in DOMAIN r.s.mgr THEN [ r EXCEPT !.s.sw = <<>>, !.s.mgr[k].cur = s.sw[2] ] ELSE [ r EXCEPT !.s.sw = <<>> ]
\* a dictionary asked for within the first callback: before the call at work has listed anything.
\* What is being loaded is there, but incomplete; what falls back to it is forgotten with it.
AskFirst(s, e) ==
  IF s.wild \/ s.ask = <<>> THEN s
  ELSE IF ~CallsBack(s, e) \/ s.ask[1] \notin DOMAIN s.mgr THEN s
  ELSE LET k == s.ask[1]
           m == s.mgr[k]
           o == IF k = e.m THEN LangOf(s, e) ELSE 0
           l == IF s.ask[2] = 0 THEN (IF s.sw # <<>> /\ s.sw[1] = k THEN s.sw[2] ELSE m.cur) ELSE s.ask[2]
           had == IF o = 0 THEN m.cache ELSE Put(m.cache, o, NewDict(m.cs))
           r == IF l = 0 THEN Calm(m) ELSE Request(FsOf(s, m), [ m EXCEPT !.cache = had ], l)
           c == IF l = 0 THEN m.cache ELSE [ x \in DOMAIN r.m.cache \ {o} |-> r.m.cache[x] ]
           s2 == [ s EXCEPT !.mgr[k].cache = c, !.wild = @ \/ r.unk ]
       IN IF s.ask[3] = <<>> \/ m.f = 0 THEN s2 ELSE SetDir(s2, [ f |-> m.f, dir |-> s.ask[3] ], [ DirOf(s2.fs[m.f], s.ask[3]) EXCEPT !.fail = TRUE ])
Complete(c) == [ l \in { x \in DOMAIN c : c[x].fb = <<>> \/ c[x].fb[1] \in DOMAIN c } |-> c[l] ]
AfterAsk(s, e, r) ==
  IF e.op = "ask" THEN [ r EXCEPT !.s.ask = <<e.m, FromEnv(e.s), e.dir>> ]
  ELSE IF s.ask = <<>> \/ e.op = "sw" THEN r
  ELSE LET r2 == [ r EXCEPT !.s.ask = <<>>, !.x = [ f \in DOMAIN @ \ {"fo", "fl"} |-> @[f] ] ] IN
       IF e.op \in {"get", "cur"} /\ ~r.s.wild THEN [ r2 EXCEPT !.s.mgr[e.m].cache = Complete(@) ] ELSE r2
Nests(s, e, r) == IF s.re = <<>> \/ e.op = "reent" \/ r.s.wild THEN r
                  ELSE [ r EXCEPT !.x = @ @@ [ altered |-> 0, re |-> TLCEval([ i \in 1..Len(s.re) |-> Within(s, e, s.re[i]) ]) ] ]
\* calls other than those that load or list ask the file systems for nothing
Asking(s, e, r) ==
  IF r.s.wild \/ s.re # <<>> THEN [ r EXCEPT !.x = [ f \in DOMAIN @ \ {"fo", "fl"} |-> @[f] ] ]
  ELSE IF DOMAIN r.s.fs = {} \/ "fo" \in DOMAIN r.x \/ e.op = "langs" THEN r
  ELSE [ r EXCEPT !.x = @ @@ [ fo |-> <<>>, fl |-> <<>> ] ]
Distinct3(k) == RangeOf(k) \subseteq 1..3 /\ Cardinality(RangeOf(k)) = 3
Apply(s, e) ==
  LET b == IF s.ask = <<>> THEN s ELSE AskFirst(s, e)
      r == AfterAsk(s, e, Switched(s, e, Nests(s, e, Asking(s, e, Apply0(b, e))))) IN
  IF ~s.logtext \/ s.wild THEN [ r EXCEPT !.s.n = @ + 1 ]
  ELSE LET key == SayKey(s, e)
           old == { i \in 1..Len(s.said) : Len(s.said[i].key) = Len(key) /\ s.said[i].key[1] = key[1] }
           hit == { i \in old : s.said[i].key = key }
           s2 == [ r.s EXCEPT !.n = @ + 1 ]
       IN IF Len(key) = 1 THEN [ r EXCEPT !.s = s2 ]
          ELSE IF hit # {} THEN LET h == s.said[CHOOSE i \in hit : TRUE] IN
               [ s |-> s2, x |-> r.x @@ [ like |-> [ k |-> h.k, was |-> h.sink, now |-> s.sink ] ] ]
          ELSE IF Distinct3(s.sink) THEN [ r EXCEPT !.s = [ s2 EXCEPT !.said = Append(@, [ key |-> key, k |-> s2.n, sink |-> s.sink ]) ] ]
          ELSE [ r EXCEPT !.s = s2 ]
=============================================================================
