------------------------------ MODULE PoParser ------------------------------
(* The .po parser as a state machine that reads one line at a time.         *)
(* exc: 1 = ended by an exception, 2 = the file leaves the modelled charsets.  *)
(* pc: "entry" "comments" "kw" "msgid" "body" "forms" "form" "commitP"      *)
(*     "commit" "cont" (continuation lines of a literal) "end" "skip" "done"*)
EXTENDS Dict

Kw == TLCEval([ ctxt |-> B("msgctxt"), id |-> B("msgid"), pl |-> B("msgid_plural"), str |-> B("msgstr"), strn |-> B("msgstr["),
        fuzzy |-> B("fuzzy"), hash |-> B("#"), ct |-> B("Content-Type:"),
        ctfull |-> B("Content-Type: text/plain; charset="), pf |-> B("Plural-Forms:"),
        charset |-> B("CHARSET"), utf8 |-> B("UTF-8"), big5 |-> B("BIG5"), bom |-> <<239, 187, 191>> ])

\* the lines a reader gets; a stream failing at offset f (f < 0: never)
\* delivers no partial line
LinesOf(file, f) ==
  LET bad == f >= 0 /\ f <= Len(file)
      p == SplitAt(IF bad THEN Take(file, f) ELSE file, NL)
      ls == IF bad \/ p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
  IN [ lines |-> IF ls # <<>> /\ HasPrefix(ls[1], Kw.bom) THEN [ ls EXCEPT ![1] = Drop(@, 3) ] ELSE ls,
       bad |-> bad ]

Start(file, failat, ped, fuzzy, dict) ==
  LET l == LinesOf(file, failat) IN
  [ pc |-> "entry", lines |-> l.lines, bad |-> l.bad, ln |-> 1, ped |-> ped, use |-> fuzzy,
    d |-> dict, conv |-> NoConv, big5 |-> FALSE, errs |-> <<>>, warns |-> <<>>, exc |-> 0,
    fz |-> FALSE, cx |-> <<>>, id |-> <<>>, buf |-> <<>>, ret |-> "", num |-> 0, forms |-> <<>>, ne |-> FALSE ]

Eof(st) == st.ln > Len(st.lines)
Cur(st) == IF Eof(st) THEN <<>> ELSE st.lines[st.ln]
NextLine(st) == [ st EXCEPT !.ln = @ + 1 ]
\* comments "# ..." separate entries like empty lines do
EmptyLine(l) ==
  \/ l = <<>>
  \/ l[1] = HASH /\ (Len(l) = 1 \/ IsSpace(l[2]))
  \/ l[1] # HASH /\ \A i \in 1..Len(l) : IsSpace(l[i])
Warn(st) == [ st EXCEPT !.warns = Append(@, st.ln) ]
WarnIf(st, c) == IF c THEN Warn(st) ELSE st
Unplaced == 0
\* the entry under way is over: nothing of it remains
Forget(st) == [ st EXCEPT !.fz = FALSE, !.cx = <<>>, !.id = <<>>, !.buf = <<>>, !.ret = "", !.num = 0, !.forms = <<>>, !.ne = FALSE ]
\* reject the entry: report, then skip to the next empty line
Reject(st) == [ Forget(st) EXCEPT !.errs = Append(@, st.ln), !.pc = "skip" ]

------------------------------------------------------------------------------
(* One literal: line l, opening quote at position p.  Scans as a fold over  *)
(* what follows the quote: m = "in" text, "esc" after a backslash, "trail"  *)
(* after a Big5 lead byte, "out" behind the closing quote.                  *)
EscOf(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 118 -> 11 [] c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13
              [] c = 34 -> 34 [] c = 92 -> 92 [] OTHER -> -1
ScanStep(big5, a, c) ==
  CASE a.m = "in" ->
         IF c = QUOTE THEN [ a EXCEPT !.m = "out" ]
         ELSE IF big5 /\ IsLead(c) THEN [ a EXCEPT !.m = "trail", !.out = Append(@, c) ]
         ELSE IF c = BACKSLASH THEN [ a EXCEPT !.m = "esc" ]
         ELSE [ a EXCEPT !.out = Append(@, c) ]
    [] a.m = "trail" -> [ a EXCEPT !.m = "in", !.out = Append(@, c) ]
    [] a.m = "esc" ->
         IF EscOf(c) >= 0 THEN [ a EXCEPT !.m = "in", !.out = Append(@, EscOf(c)) ]
         ELSE [ a EXCEPT !.m = "in", !.out = @ \o <<BACKSLASH, c>>, !.w = @ + 1 ]
    [] a.m = "out" -> IF IsSpace(c) THEN a ELSE [ a EXCEPT !.g = 1 ]
\* [ok, out, w]
ScanLit(l, p, big5) ==
  LET a == FoldLeft(LAMBDA x, c : ScanStep(big5, x, c), [ m |-> "in", out |-> <<>>, w |-> 0, g |-> 0 ], Drop(l, p))
  IN [ ok |-> a.m = "out", out |-> a.out, w |-> a.w + a.g ]

WarnN(st, n) == [ st EXCEPT !.warns = @ \o TLCEval([ i \in 1..n |-> st.ln ]) ]
\* take the literal at position p of the current line
TakeLit(st, p) ==
  LET r == ScanLit(Cur(st), p, st.big5)
      s == WarnN(st, r.w)
  IN IF r.ok THEN [ NextLine(s) EXCEPT !.buf = @ \o r.out, !.pc = "cont" ] ELSE Reject(s)
FirstNonSpace(l, from) == FirstPos(l, from, LAMBDA c : ~IsSpace(c))
\* the literal after a keyword of k bytes; the result is delivered at `ret`
BeginLit(st0, k, ret) ==
  LET st == [ st0 EXCEPT !.ret = ret, !.buf = <<>> ]
      l == Cur(st)
  IN IF k + 1 >= Len(l) THEN Reject(st)
     ELSE IF l[k+1] = 32 /\ l[k+2] = QUOTE THEN TakeLit(st, k + 2)
     ELSE LET s == WarnIf(st, st.ped)
              p == FirstNonSpace(l, k + 1)
          IN IF p = 0 \/ l[p] # QUOTE THEN Reject(s) ELSE TakeLit(s, p)
\* further literals on the following lines
Cont(st) ==
  LET l == Cur(st)
      p == FirstNonSpace(l, 1)
  IN IF p > 0 /\ l[p] = QUOTE THEN TakeLit(WarnIf(st, st.ped /\ p = 2), p)
     ELSE [ st EXCEPT !.pc = st.ret ]

------------------------------------------------------------------------------
(* The header: newline terminated fields                                    *)
HdrField(h, f) ==
  IF HasPrefix(f, Kw.ct)
    THEN IF HasPrefix(f, Kw.ctfull) THEN [ h EXCEPT !.cs = Upper(Drop(f, Len(Kw.ctfull))) ] ELSE [ h EXCEPT !.w = @ + 1 ]
  ELSE IF HasPrefix(f, Kw.pf)
    THEN LET r == FromHeader(f) IN
         IF r = 0 THEN [ h EXCEPT !.w = @ + 1 ]
         ELSE IF h.pl = 0 THEN [ h EXCEPT !.pl = r ]
         ELSE IF h.pl # r THEN [ h EXCEPT !.w = @ + 1 ] ELSE h
  ELSE h
Header(st, t) ==
  LET p == SplitAt(t, NL)
      h == FoldLeft(HdrField, [ cs |-> <<>>, pl |-> st.d.pl, w |-> 0 ], SubSeq(p, 1, Len(p) - 1))
      none == h.cs = <<>> \/ h.cs = Kw.charset
      from == IF none THEN Kw.utf8 ELSE h.cs
      s == [ WarnN(st, h.w + Bool01(none)) EXCEPT !.d.pl = h.pl, !.big5 = @ \/ from = Kw.big5 ]
  IN IF Supported(from, s.d.cs) THEN [ s EXCEPT !.conv = MkConv(from, s.d.cs), !.pc = "end" ]
     ELSE [ s EXCEPT !.exc = IF Support(from, s.d.cs) = "no" THEN 1 ELSE 2, !.pc = "done" ]

\* a conversion reports its errors without a place
Conv(st, t) == LET c == Convert(st.conv, t) IN
  [ r |-> c.r, s |-> IF c.unk THEN [ st EXCEPT !.exc = 2 ] ELSE IF c.err > 0 THEN [ st EXCEPT !.errs = Append(@, Unplaced) ] ELSE st ]
Added(st, a) == [ st EXCEPT !.d = a.d, !.warns = IF a.w > 0 THEN Append(@, Unplaced) ELSE @, !.pc = "end" ]
Skip(st) == [ st EXCEPT !.pc = "end" ]
SetForm(forms, i, t) == TLCEval([ k \in 1..(IF i + 1 > Len(forms) THEN i + 1 ELSE Len(forms)) |->
                            IF k = i + 1 THEN t ELSE IF k <= Len(forms) THEN forms[k] ELSE <<>> ])

Step(st) ==
  LET l == Cur(st) IN
  CASE st.pc = "entry" ->
         IF Eof(st) THEN [ st EXCEPT !.pc = "done" ]
         ELSE [ st EXCEPT !.pc = "comments" ]
    [] st.pc = "comments" ->
         IF HasPrefix(l, Kw.hash)
           THEN [ NextLine(st) EXCEPT !.fz = @ \/ (Len(l) >= 2 /\ l[2] = 44 /\ HasSub(Drop(l, 2), Kw.fuzzy)) ]
         ELSE [ st EXCEPT !.pc = IF EmptyLine(l) THEN "end" ELSE "kw" ]
    [] st.pc = "kw" -> IF HasPrefix(l, Kw.ctxt) THEN BeginLit(st, 7, "ctxt") ELSE [ st EXCEPT !.pc = "msgid" ]
    [] st.pc = "ctxt" -> [ st EXCEPT !.cx = <<st.buf>>, !.pc = "msgid" ]
    [] st.pc = "msgid" -> IF HasPrefix(l, Kw.id) THEN BeginLit(st, 5, "body") ELSE Reject(st)
    [] st.pc = "body" ->
         LET s == [ st EXCEPT !.id = st.buf ] IN
         IF HasPrefix(l, Kw.pl) THEN BeginLit(s, 12, "forms")
         ELSE IF HasPrefix(l, Kw.str) THEN BeginLit(s, 6, "commit")
         ELSE Reject(s)
    [] st.pc = "forms" ->
         IF EmptyLine(l) THEN IF st.forms = <<>> THEN Reject(st) ELSE [ st EXCEPT !.pc = "commitP" ]
         ELSE IF HasPrefix(l, Kw.strn) /\ Len(l) > 8 /\ IsDigit(l[8]) /\ l[9] = 93
           THEN BeginLit([ st EXCEPT !.num = l[8] - 48 ], 9, "form")
         ELSE Reject(st)
    [] st.pc = "form" ->
         LET c == Conv(st, st.buf)
         IN [ c.s EXCEPT !.ne = @ \/ st.buf # <<>>, !.forms = SetForm(@, st.num, c.r), !.pc = "forms" ]
    [] st.pc = "commitP" ->
         IF ~st.ne \/ (st.fz /\ ~st.use) THEN Skip(st)
         ELSE LET s == WarnIf(st, st.d.pl = 0 \/ Len(st.forms) # NPlurals(st.d.pl))
              IN Added(s, AddForms(s.d, s.cx, s.id, s.forms))
    [] st.pc = "commit" ->
         IF st.id = <<>> /\ st.cx = <<>> THEN Header(st, st.buf)
         ELSE IF st.buf = <<>> \/ (st.fz /\ ~st.use) THEN Skip(st)
         ELSE LET c == Conv(st, st.buf) IN Added(c.s, AddSingle(c.s.d, st.cx, st.id, c.r))
    [] st.pc = "cont" -> Cont(st)
    [] st.pc = "skip" -> IF Eof(st) \/ EmptyLine(l) THEN [ st EXCEPT !.pc = "entry" ] ELSE NextLine(st)
    [] st.pc = "end" -> IF EmptyLine(l) THEN [ NextLine(Forget(st)) EXCEPT !.pc = "entry" ] ELSE Reject(st)
    [] st.pc = "done" -> st

\* every step reads a line or moves on within the grammar: this bounds the run
Bound(st) == 8 * (Len(st.lines) + 2)
Run(st) == FoldLeft(LAMBDA s, i : IF s.pc = "done" THEN s ELSE Step(s), st, [ i \in 1..Bound(st) |-> i ])

\* parse a file into a dictionary
Parse(file, failat, ped, fuzzy, dict) == Run(Start(file, failat, ped, fuzzy, dict))
\* the same behind n > 0 empty lines (PoGraph!Shifted): other line numbers, and no mark at the start
Padded(n, file, failat, ped, fuzzy, dict) ==
  LET r == IF n = 0 THEN Parse(file, failat, ped, fuzzy, dict)
           ELSE Parse(<<NL>> \o file, IF failat < 0 THEN -1 ELSE failat + 1, ped, fuzzy, dict)
      Move(ns) == IF n = 0 THEN ns ELSE TLCEval([ i \in 1..Len(ns) |-> IF ns[i] = Unplaced THEN Unplaced ELSE ns[i] + n - 1 ])
  IN [ r EXCEPT !.errs = Move(@), !.warns = Move(@) ]
\* like Parse, in a form convenient for statements about files
Load(file) == Parse(file, -1, TRUE, TRUE, NewDict(Kw.utf8)).d
=============================================================================
