------------------------------- MODULE PoGraph -------------------------------
(* The control states of the .po parser: files grow by one line per action; *)
(* files that leave the parser in the same state are the same state here,   *)
(* so the graph is explored without a bound on the number of lines.  Every  *)
(* transition becomes a file for the implementation (with its path there),  *)
(* once as it stands and once followed by an empty line and a good entry.   *)
EXTENDS Drive

CONSTANTS AlphaName, MaxEnt, MaxBuf, MaxForms, Ped, CutAll, DView

Q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
Hdr(f) == <<QUOTE>> \o B(f) \o B("\\n") \o <<QUOTE>>
BaseAlpha == << <<>>, B("# c"), B("#, fuzzy"), B("msgctxt ") \o Q("c"), B("msgid ") \o Q("a"), B("msgid ") \o Q("b"), B("msgid ") \o Q(""),
            B("msgid_plural ") \o Q("p"), B("msgstr ") \o Q("t"), B("msgstr ") \o Q(""), B("msgstr[0] ") \o Q("x"), B("msgstr[1] ") \o Q("y"),
            Q("z"), B("junk"), B("msgid ") \o <<QUOTE>> \o B("q"), B("msgstr[x] ") \o Q("t") >>
\* tolerated irregularities and more broken lines
OddAlpha == BaseAlpha \o << B("  "), B("#"), B("#: src.c:1"), B(" ") \o Q("w"), B("  ") \o Q("v"), B("msgid  ") \o Q("a"), B("msgstr") \o Q("n"),
            B("msgstr ") \o Q("t") \o B(" g"), B("msgstr ") \o Q("\\q"), B("msgstr ") \o Q("\\n") \o B(" "), B("msgstr[0]"), B("msgstr"), B("msgid"), B("msgctxt ") \o Q(""), B("msgctxt c"),
            B("msgid ") \o Q("a") \o <<13>>, <<13>>, <<QUOTE, BACKSLASH, QUOTE>>, <<QUOTE>>, B("msgstr[0] ") \o Q(""), B("msgstr[10] ") \o Q("x"), <<195, 164>> >>
\* headers
HdrAlpha == << <<>>, B("msgid ") \o Q(""), B("msgid ") \o Q("a"), B("msgctxt ") \o Q("c"), B("msgstr ") \o Q(""), B("msgstr ") \o <<QUOTE, 228, QUOTE>>,
            B("msgid_plural ") \o Q("p"), B("msgstr[0] ") \o Q("x"), B("msgstr[1] ") \o Q("y"), B("#, fuzzy"),
            Hdr("Content-Type: text/plain; charset=ISO-8859-1"), Hdr("Content-Type: text/html"), Hdr("Plural-Forms: nplurals=2; plural=(n != 1);"),
            Hdr("Plural-Forms: nplurals=1; plural=0;"), Hdr("Plural-Forms: nplurals=2; plural=n!1;"), Hdr("Language: de"), Q("Content-Type: text/plain; charset=KOI8-R") >>
Alpha == CASE AlphaName = "base" -> BaseAlpha [] AlphaName = "odd" -> OddAlpha [] AlphaName = "hdr" -> HdrAlpha
HdrLines == << B("msgid ") \o Q(""), B("msgstr ") \o Hdr("Content-Type: text/plain; charset=UTF-8"), Hdr("Plural-Forms: nplurals=2; plural=(n != 1);"), <<>> >>
GoodLines == << <<>>, B("msgid ") \o Q("Z"), B("msgstr ") \o Q("zett") >>

\* the parser fed line by line
Settle(st) == LET RECURSIVE Go(_)
                  Go(s) == IF s.pc = "done" \/ Eof(s) THEN s ELSE Go(Step(s))
              IN Go(st)
Feed(st, line) == Settle([ st EXCEPT !.lines = Append(@, line) ])
Finish(st) == LET RECURSIVE Go(_)
                  Go(s) == IF s.pc = "done" THEN s ELSE Go(Step(s))
              IN Go(st)
FeedAll(st, ls) == FoldLeft(Feed, st, ls)
Begin == LET s == Start(<<>>, -1, Ped, TRUE, NewDict(Kw.utf8)) IN IF AlphaName = "hdr" THEN s ELSE FeedAll(s, HdrLines)

VARIABLES vPo
Init == vPo = Begin
\* the fields that decide what comes next
Control(st) == << st.pc, st.ret, st.buf, st.fz, st.cx, st.id, st.forms, st.num, st.ne, st.big5, st.exc, st.conv, st.d.pl,
                  st.d.ent, st.d.ctx >>
\* the same with texts reduced to whether they are empty
L01(t) == Bool01(t # <<>>)
Shape(st) == << st.pc, st.ret, L01(st.buf), st.fz, IF st.cx = <<>> THEN 2 ELSE L01(st.cx[1]), L01(st.id), Len(st.forms), st.ne, st.big5, st.exc, st.conv, st.d.pl,
                Cardinality(DOMAIN st.d.ent), Cardinality(DOMAIN st.d.ctx) >>
View == IF DView THEN Control(vPo) ELSE Shape(vPo)
Small(st) == /\ Cardinality(DOMAIN st.d.ent) + Cardinality(DOMAIN st.d.ctx) <= MaxEnt
             /\ Len(st.buf) <= MaxBuf /\ Len(st.forms) <= MaxForms /\ st.exc = 0
             /\ Len(st.id) <= MaxBuf /\ (st.cx = <<>> \/ Len(st.cx[1]) <= MaxBuf) /\ \A i \in 1..Len(st.forms) : Len(st.forms[i]) <= MaxBuf
             /\ \A k \in DOMAIN st.d.ent : Len(k) <= MaxBuf /\ \A i \in 1..Len(st.d.ent[k]) : Len(st.d.ent[k][i]) <= MaxBuf
             /\ \A k \in DOMAIN st.d.ctx : Len(k[2]) <= MaxBuf /\ \A i \in 1..Len(st.d.ctx[k]) : Len(st.d.ctx[k][i]) <= MaxBuf
Next == \E i \in 1..Len(Alpha) : vPo' = Feed(vPo, Alpha[i])
Spec == Init /\ [][Next]_vPo
Constraint == Small(vPo)

PedN == Bool01(Ped)
FileCall(f, at) == [ op |-> "parse", d |-> 1, ped |-> PedN, failat |-> at, file |-> f ]
File(ls) == Joined(ls)
\* file names that messages have to show, lines in front
Names == << B("de.po"), B("/usr/share/x y/de.po"), B("a:7: b/../c.po"), <<>>, B("po"), B("./.po"), B("d//e.po"), B("7"), B("error"), <<195, 164, 92, 47, 255>> >>
Named(k) == [ pad |-> k % 4, name |-> Names[(k % Len(Names)) + 1] ]
Probe == << CTr(1, <<>>, B("a")), CTr(1, <<B("c")>>, B("a")), CTrp(1, <<>>, B("a"), B("p"), 1), CTrp(1, <<>>, B("a"), B("p"), 2), CTr(1, <<>>, B("Z")) >>
\* one behaviour per transition
EmitT == LET f == File(vPo'.lines) IN
        /\ Show(<< CDict(1, Kw.utf8), FileCall(f, -1) >> \o Probe)
        /\ Show(<< CDict(1, Kw.utf8), FileCall(f \o File(GoodLines), -1), CDict(2, Kw.utf8),
                   [ FileCall(Take(f, Len(f) - 1), -1) EXCEPT !.d = 2 ] @@ Named(TLCGet("level") + Len(f)) >>)
        /\ CutAll => Show(<< CDict(1, Kw.utf8), FileCall(Take(f, Len(f) - 1 - (TLCGet("level") % 5)), -1) >>)
        /\ CutAll => Show(<< CDict(1, Kw.utf8), FileCall(f, Len(f) - (TLCGet("level") % 7)) >>)

------------------------------------------------------------------------------
(* what holds in every parser state                                         *)
Same(a, b) == a.d = b.d /\ a.errs = b.errs /\ a.warns = b.warns /\ a.exc = b.exc
\* reading line by line and reading the whole file are the same; termination is part of it (Run is bounded)
Incremental == LET w == Parse(File(vPo.lines), -1, Ped, TRUE, NewDict(Kw.utf8)) IN w.pc = "done" /\ Same(w, Finish(vPo))
\* empty lines in front change nothing but the line numbers
Shifted == \A n \in {0, 1, 3} : LET a == Parse(TLCEval([ i \in 1..n |-> NL ]) \o File(vPo.lines), -1, Ped, TRUE, NewDict(Kw.utf8))
                              b == Padded(n, File(vPo.lines), -1, Ped, TRUE, NewDict(Kw.utf8)) IN Same(a, b)
\* no final newline is needed
NoFinalNewline ==
  LET f == File(vPo.lines) IN
  (vPo.lines # <<>> /\ vPo.lines[Len(vPo.lines)] # <<>>) => Same(Finish(vPo), Parse(Take(f, Len(f) - 1), -1, Ped, TRUE, NewDict(Kw.utf8)))
\* whatever came before, a good entry behind an empty line is loaded, and nothing else is
Contained ==
  LET z == Finish(Feed(vPo, <<>>)).d
      r == Finish(FeedAll(vPo, GoodLines))
  IN vPo.exc = 0 /\ r.exc = 0 => r.d = AddSingle(z, <<>>, B("Z"), Convert(r.conv, B("zett")).r).d
\* no translation is empty in all its forms (a form given twice may be)
NoEmptyAnswer == \A k \in {B("a"), B("b")} : Tr(vPo.d, <<>>, k).r # <<>> /\ \A n \in 0..3 : Trp(vPo.d, <<>>, k, B("p"), n).r # <<>>
NoEmptyText == \A k \in DOMAIN vPo.d.ent : \E i \in 1..Len(vPo.d.ent[k]) : vPo.d.ent[k][i] # <<>>
\* a rejected line leaves the dictionary as it is; later lines never take anything away
Reported == [][ (Len(vPo'.errs) > Len(vPo.errs) /\ vPo'.pc = "skip") => vPo'.d = vPo.d \/ vPo.pc \in {"cont", "forms"} ]_vPo
Grows == [][ DOMAIN vPo.d.ent \subseteq DOMAIN vPo'.d.ent /\ DOMAIN vPo.d.ctx \subseteq DOMAIN vPo'.d.ctx ]_vPo
\* at most one report per rejected place, with the number of the present line
Placed == /\ \A i \in 1..Len(vPo.errs) : vPo.errs[i] <= Len(vPo.lines) + 1
          /\ \A i, j \in 1..Len(vPo.errs) : i # j /\ vPo.errs[i] # 0 => vPo.errs[i] # vPo.errs[j]
=============================================================================
