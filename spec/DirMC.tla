-------------------------------- MODULE DirMC --------------------------------
(* One search directory: which of its files is loaded for a request (C18)   *)
(* and which languages it offers (C21).  All ordered listings of up to      *)
(* MaxFiles files.  Mode "two": the listing is spread over two directories. *)
EXTENDS Drive
CONSTANTS MaxFiles, Mode

Names == << "de.po", "de_AT.po", "de_at.po", "de_DE.po", "sr@latin.po", "sr.po", "xx.po", "de.txt", ".po", "de.po~", "de.PO", "pt_br.po", "de_AT.UTF-8.po", "README", "nb.po", "po",
            "ca@valencia.po", "ca_ES.po", "de_XX.po", "sr_rs@latin.po" >>
NN == Len(Names)
NamesQ == IF MaxFiles > 2 THEN 1..13 ELSE 1..NN
Requests == << "de", "de_AT", "de_DE", "de_CH", "sr", "sr@latin", "pt_BR", "pt", "ca", "ca@valencia", "nb" >>
VARIABLES vList
Init == vList = <<>>
Next == Len(vList) < MaxFiles /\ \E i \in NamesQ : (i \notin RangeOf(vList)) /\ vList' = Append(vList, i)
Spec == Init /\ [][Next]_vList

q(s) == <<QUOTE>> \o s \o <<QUOTE>>
Num(i) == IF i < 10 THEN <<48 + i>> ELSE <<48 + (i \div 10), 48 + (i % 10)>>
\* every file translates a differently, and a message of its own
Content(i) == Joined(<< B("msgid ") \o q(<<>>), B("msgstr ") \o q(B("Content-Type: text/plain; charset=UTF-8\\n")), <<>>,
                        B("msgid ") \o q(B("a")), B("msgstr ") \o q(B("A") \o Num(i)), <<>>, B("msgid ") \o q(B("k") \o Num(i)), B("msgstr ") \o q(B("K") \o Num(i)) >>)
DirName(p) == IF Mode = "two" /\ p % 2 = 0 THEN B("dir/b") ELSE B("a")
Put1(p) == [ op |-> "put", f |-> 1, dir |-> DirName(p), name |-> B(Names[vList[p]]), mode |-> "ok", content |-> Content(vList[p]) ]
Get(s) == [ op |-> "get", m |-> 1, s |-> s ]
Langs == [ op |-> "langs", m |-> 1 ]
Setup == << [ op |-> "fs", f |-> 1 ] >> \o TLCEval([ p \in 1..Len(vList) |-> Put1(p) ]) \o
         << [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ], [ op |-> "adddir", m |-> 1, dir |-> B("a"), prec |-> 0 ] >> \o
         (IF Mode = "two" THEN << [ op |-> "adddir", m |-> 1, dir |-> B("dir/b"), prec |-> 0 ], [ op |-> "adddir", m |-> 1, dir |-> B("none"), prec |-> 1 ] >> ELSE <<>>)
S1 == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup)
Fs == S1.fs[1]
M == S1.mgr[1]
Offered == SortedSeq({ LStr(l) : l \in Available(Fs, M) })
\* the listed languages are asked for as well
Out == Show(Setup \o << Langs, Get(B("de_AT")), Langs, Get(B("de_AT")) >> \o TLCEval([ i \in 1..Len(Requests) |-> Get(B(Requests[i])) ])
            \o TLCEval([ i \in 1..Len(Offered) |-> Get(Offered[i]) ]) \o << Langs >>)

\* stated with the names' meaning written down by hand
Means == << <<"de", "", "">>, <<"de", "AT", "">>, <<"de", "AT", "">>, <<"de", "", "">>, <<"sr", "", "latin">>, <<"sr", "", "">>, <<>>, <<>>, <<>>, <<>>, <<>>, <<"pt", "BR", "">>, <<"de", "AT", "">>, <<>>, <<"nb", "", "">>, <<>>,
            <<"ca", "", "valencia">>, <<"ca", "", "">>, <<"de", "", "">>, <<"sr", "", "latin">> >>
ASSUME \A i \in 1..NN : IF Means[i] = <<>> THEN FileLang(B(Names[i])) = 0
                        ELSE LET l == FileLang(B(Names[i])) IN LCode(l) = B(Means[i][1]) /\ (i \in {1, 2, 3, 5, 6, 12, 13, 15, 17} => LCountry(l) = B(Means[i][2]) /\ LModifier(l) = B(Means[i][3]))
InDir(d) == SelectSeq(TLCEval([ p \in 1..Len(vList) |-> p ]), LAMBDA p : DirName(p) = d)
Matching(lang, d) == SelectSeq(InDir(d), LAMBDA p : LET l == FileLang(B(Names[vList[p]])) IN l # 0 /\ LCode(l) = LCode(lang))
\* exactly the best file of the directory, the first of those
Chosen == \A r \in 1..Len(Requests) :
   LET lang == FromEnv(B(Requests[r]))
       o == LoadOwn(Fs, M, lang).d
       sc(p) == Match(lang, FileLang(B(Names[vList[p]])))
       want == UNION { LET m == Matching(lang, d) IN { vList[m[i]] : i \in { x \in 1..Len(m) : (\A j \in 1..Len(m) : sc(m[j]) <= sc(m[x])) /\ \A j \in 1..(x-1) : sc(m[j]) < sc(m[x]) } } : d \in {B("a"), B("dir/b")} }
   IN { i \in 1..NN : B("k") \o Num(i) \in DOMAIN o.ent } = want /\ (want = {}) = (DOMAIN o.ent = {})
\* offered is what can be loaded: that file, or one that matches as well
Offers == /\ Available(Fs, M) = { FileLang(B(Names[vList[p]])) : p \in 1..Len(vList) } \ {0}
          /\ \A l \in Available(Fs, M) : \E d \in {B("a"), B("dir/b")} : LET m == Matching(l, d) IN \E i \in 1..Len(m) : Match(l, FileLang(B(Names[vList[m[i]]]))) = 9
=============================================================================
