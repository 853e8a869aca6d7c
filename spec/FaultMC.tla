------------------------------- MODULE FaultMC -------------------------------
(* Files and directories that cannot be used (C22): every way and place of  *)
(* failing, for one or two of the files, then recovery.                     *)
EXTENDS Drive
CONSTANTS Pairs, Again

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Hdr == << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=UTF-8\\n"), <<>> >>
\* own message, shared message, and a last one
Po(n) == Joined(Hdr \o << K("msgid", "k" \o n), K("msgstr", "K" \o n), <<>>, K("msgid", "a"), K("msgstr", "A" \o n), <<>>, K("msgid", "l" \o n), K("msgstr", "L" \o n) >>)
Bad(n) == Joined(Hdr \o << K("msgid", "k" \o n), K("msgstr", "K" \o n), <<>>, K("msgid", "a"), B("junk"), <<>>, K("msgid", "l" \o n), K("msgstr", "L" \o n) >>)
NoCs(n) == Joined(<< K("msgid", "e" \o n), K("msgstr", "E" \o n), <<>>, K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=FOO\\n"), <<>>, K("msgid", "k" \o n), K("msgstr", "K" \o n) >>)
\* files: 1..3 the same language in three directories, 4 the country, 5 an unrelated one
Files == << <<B("d1"), B("de.po"), "1">>, <<B("d2"), B("de.po"), "2">>, <<B("d3"), B("de.po"), "3">>, <<B("d2"), B("de_AT.po"), "4">>, <<B("d1"), B("fr.po"), "5">> >>
Len1 == Len(Po("1"))
\* faults: [mode, at, content]
Points == { 0, 1, 9, 20, 60, 75, 82, 84, 90, 105, Len1 - 9, Len1 - 1, Len1 }
Faults == { <<"ok", -1, 1>>, <<"null", -1, 1>>, <<"throw", -1, 1>>, <<"bad", -1, 1>>, <<"ok", -1, 2>>, <<"ok", -1, 3>>, <<"ok", -1, 4>> } \cup { <<"fail", p, 1>> : p \in Points } \cup { <<m, -1, 1>> : m \in {"throwl", "throwm", "throwo", "throwr", "throws"} } \cup { <<"xfail", p, 1>> : p \in {20, Len1 - 18} }
FaultsQ == { <<"ok", -1, 1>>, <<"null", -1, 1>>, <<"throw", -1, 1>>, <<"bad", -1, 1>>, <<"ok", -1, 2>>, <<"ok", -1, 3>>, <<"fail", 84, 1>>, <<"fail", 60, 1>> }
Fine == <<"ok", -1, 1>>
NoFaults == << Fine, Fine, Fine, Fine, Fine >>
VARIABLES vFile, vDir
Init == vFile = NoFaults /\ vDir = -1
\* one file with any fault, or two with some
Next == /\ vDir = -1
        /\ \/ \E i \in 1..5, f \in Faults : vFile' = [ NoFaults EXCEPT ![i] = f ] /\ vDir' = 0
           \/ Pairs /\ \E i, j \in 1..4 : i < j /\ \E f, g \in FaultsQ \ {Fine} : vFile' = [ NoFaults EXCEPT ![i] = f, ![j] = g ] /\ vDir' = 0
           \/ \E d \in 1..3, i \in 1..5, f \in FaultsQ : vFile' = [ NoFaults EXCEPT ![i] = f ] /\ vDir' = d
Spec == Init /\ [][Next]_<<vFile, vDir>>
Txt(i) == CASE vFile[i][3] = 1 -> Po(Files[i][3]) [] vFile[i][3] = 2 -> Bad(Files[i][3]) [] vFile[i][3] = 3 -> NoCs(Files[i][3]) [] vFile[i][3] = 4 -> <<255, 254, 0, 34, 92>>
PutF(i) == [ op |-> "put", f |-> 1, dir |-> Files[i][1], name |-> Files[i][2], mode |-> vFile[i][1], content |-> Txt(i) ] @@ (IF vFile[i][1] \in {"fail", "xfail"} THEN [ at |-> vFile[i][2] ] ELSE EmptyFcn)
Heal(i) == [ op |-> "mode", f |-> 1, dir |-> Files[i][1], name |-> Files[i][2], mode |-> "ok" ]
Add(d) == [ op |-> "adddir", m |-> 1, dir |-> B(d), prec |-> 0 ]
Get(l) == [ op |-> "get", m |-> 1, s |-> B(l) ]
CurD == [ op |-> "cur", m |-> 1 ]
SL(l) == [ op |-> "setlang", m |-> 1, s |-> B(l) ]
\* (a setting that is as before need not cause a reload)
CsA == [ op |-> "setcs", m |-> 1, cs |-> B("ISO-8859-1") ]
CsB == [ op |-> "setcs", m |-> 1, cs |-> Kw.utf8 ]
LangsC == [ op |-> "langs", m |-> 1 ]
DirNo(d) == IF d = 1 THEN B("d1") ELSE IF d = 2 THEN B("d2") ELSE B("d3")
Fail(n) == IF vDir <= 0 THEN <<>> ELSE << [ op |-> "dirfail", f |-> 1, dir |-> DirNo(vDir), n |-> n, kind |-> IF vFile = NoFaults THEN "l" ELSE "o" ] >>
Setup == << [ op |-> "fs", f |-> 1 ] >> \o TLCEval([ i \in 1..5 |-> PutF(i) ]) \o << [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ], Add("d1"), Add("d2"), Add("d3") >>
Gets == << Get("de_AT"), Get("de"), LangsC, Get("fr"), Get("de_AT") >>
\* with the faults, then the directory back (nothing else changed), then all well and reloaded
Rep == IF Again THEN << [ op |-> "repeat" ] >> ELSE <<>>
End == IF Again THEN << [ op |-> "end" ] >> ELSE <<>>
Out == vDir = -1 \/ (Show(Rep \o Setup \o Fail(-1) \o Gets \o Fail(0) \o Gets \o End) /\ Show(Rep \o Setup \o << SL("de_AT"), CurD >> \o Fail(-1) \o << CsA, CurD, CurD >> \o Fail(0) \o << CurD >> \o TLCEval([ i \in 1..5 |-> Heal(i) ]) \o << CurD, CsB, CurD, Get("de"), Get("fr") >> \o End))

\* stated on its own.  A file that cannot be opened counts for nothing, one that fails while being read for what was complete before
S1 == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup)
M == S1.mgr[1]
\* the same directories, the files that have a fault being empty
Others == [ d \in DOMAIN S1.fs[1] |-> [ S1.fs[1][d] EXCEPT !.files = TLCEval([ j \in 1..Len(@) |->
              IF \E i \in 1..5 : vFile[i] # Fine /\ Files[i][1] = d /\ Files[i][2] = @[j].name THEN [ @[j] EXCEPT !.mode = "ok", !.content = <<>> ] ELSE @[j] ]) ] ]
Ent(fs, l) == LoadOwn(fs, M, FromEnv(B(l))).d.ent
\* what the other files say is there; the shared message comes from one of the files that can be read
Contained == vDir >= 0 => \A l \in {"de", "de_AT", "fr"} :
  LET e == Ent(S1.fs[1], l) o == Ent(Others, l)
  IN /\ \A k \in DOMAIN o : k \in DOMAIN e /\ (k # B("a") => e[k] = o[k])
     /\ \A k \in DOMAIN e \ DOMAIN o : \E i \in 1..5 : vFile[i] # Fine /\ vFile[i][1] \in {"ok", "fail", "xfail"} /\ (k = B("a") \/ k \in { B("k" \o Files[i][3]), B("l" \o Files[i][3]), B("e" \o Files[i][3]) })
\* a fault in a file that is used is reported as an error, and without one nothing is
Told == vDir >= 0 => \A l \in {"de", "de_AT", "fr"} :
  (LoadOwn(S1.fs[1], M, FromEnv(B(l))).err = 1) = (\E i \in 1..5 : vFile[i] # Fine /\ LET f == FileLang(Files[i][2]) IN f # 0 /\
       (CASE l = "de" -> i \in 1..3 [] l = "de_AT" -> i \in {1, 3, 4} [] l = "fr" -> i = 5 [] OTHER -> FALSE) )
=============================================================================
