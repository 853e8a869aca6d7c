------------------------------- MODULE FuzzyMC -------------------------------
(* Fuzzy and untranslated entries, seen through a manager (C06).            *)
EXTENDS Drive
CONSTANTS MaxBlocks

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
FlagLines == << <<>>, <<B("#, fuzzy")>>, <<B("#, c-format, fuzzy")>>, <<B("#,fuzzy,no-wrap")>>, <<B("# fuzzy")>>, <<B("#: fuzzy.c:1"), B("#. , fuzzy")>>, <<B("#, fuzzy"), B("#: x.c:1"), B("#| msgid") \o q("old")>>, <<B("#: x.c:1"), B("#, fuzzy")>>,
                 <<B("#, fuzzy"), B("#, c-format")>>, <<B("#, c-format"), B("#, fuzzy"), B("# text"), B("#, no-wrap")>>, <<B("#, no-wrap"), B("#, c-format")>> >>
Bodies == << << K("msgid", "a"), K("msgstr", "A") >>, << K("msgid", "a"), K("msgstr", "") >>, << K("msgctxt", "c"), K("msgid", "a"), K("msgstr", "C") >>,
             << K("msgid", "p"), K("msgid_plural", "ps"), K("msgstr[0]", "P0"), K("msgstr[1]", "P1") >>, << K("msgid", "p"), K("msgid_plural", "ps"), K("msgstr[0]", ""), K("msgstr[1]", "") >>,
             << K("msgid", "p"), K("msgid_plural", "ps"), K("msgstr[0]", "P0"), K("msgstr[1]", "") >>, << K("msgctxt", "c"), K("msgid", "p"), K("msgid_plural", "ps"), K("msgstr[0]", ""), K("msgstr[1]", "Q1") >>,
             << >>, << B("junk") >> >>
\* an entry: <<flag, body>>; flags other than the first two are tried on the first body only
Blocks == { <<f, b>> \in (1..Len(FlagLines)) \X (1..Len(Bodies)) : f <= 2 \/ b = 1 \/ (f = 3 /\ b = 4) }
HdrL(fuzzy) == (IF fuzzy THEN <<B("#, fuzzy")>> ELSE <<>>) \o << K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=ISO-8859-1\\n"), q("Plural-Forms: nplurals=2; plural=(n != 1);\\n"), <<>> >>
VARIABLES vBl, vHf, vSet
Init == vBl = <<>> /\ vHf \in {TRUE, FALSE} /\ vSet \in 1..5
Next == Len(vBl) < MaxBlocks /\ (\E b \in Blocks : vBl' = Append(vBl, b)) /\ UNCHANGED <<vHf, vSet>>
Spec == Init /\ [][Next]_<<vBl, vHf, vSet>>
File == Joined(HdrL(vHf) \o Flatten(TLCEval([ i \in 1..Len(vBl) |-> FlagLines[vBl[i][1]] \o Bodies[vBl[i][2]] \o << <<>> >> ])) \o << K("msgid", "last"), B("msgstr ") \o <<QUOTE, 228, QUOTE>> >>)
SF(v) == [ op |-> "setfuzzy", m |-> 1, v |-> v ]
Get == [ op |-> "get", m |-> 1, s |-> B("de") ]
Settings == << <<>>, <<SF(1)>>, <<SF(0)>>, <<SF(0), SF(1)>>, <<Get, SF(0), Get, SF(1)>> >>
Qq(k, a, n) == [ op |-> "q", k |-> k, a |-> a, n |-> n ]
Out == Show(<< [ op |-> "fs", f |-> 1 ], [ op |-> "put", f |-> 1, dir |-> B("d"), name |-> B("de.po"), mode |-> "ok", content |-> File ], [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ],
               [ op |-> "adddir", m |-> 1, dir |-> B("d"), prec |-> 0 ],
               Qq("tr", <<B("a")>>, 0), Qq("trc", <<B("c"), B("a")>>, 0), Qq("trp", <<B("p"), B("ps")>>, 1), Qq("trp", <<B("p"), B("ps")>>, 2), Qq("trcp", <<B("c"), B("p"), B("ps")>>, 1),
               Qq("trcp", <<B("c"), B("p"), B("ps")>>, 2), Qq("tr", <<B("last")>>, 0) >> \o Settings[vSet] \o << Get >>)
\* stated without the parser: which entries count
Used(b, on) == b[2] \in {1, 3, 4, 6, 7} /\ (on \/ b[1] \notin {2, 3, 4, 7, 8, 9, 10})
Key(b) == CASE b[2] = 1 -> <<0, B("a")>> [] b[2] = 3 -> <<1, B("a")>> [] b[2] \in {4, 6} -> <<0, B("p")>> [] b[2] = 7 -> <<1, B("p")>>
On(n) == n \in {1, 2, 4, 5}
Keys(d) == { <<0, k>> : k \in DOMAIN d.ent } \cup { <<1, k[2]>> : k \in DOMAIN d.ctx }
\* "junk" and orphan flags take nothing with them; orphan flags flag nothing
Rule == \A on \in {TRUE, FALSE} :
          LET d == Parse(File, -1, TRUE, on, NewDict(Kw.utf8)).d
          IN Keys(d) = { Key(vBl[i]) : i \in { j \in 1..Len(vBl) : Used(vBl[j], on) } } \cup { <<0, B("last")>> }
\* fuzzy or not, the header counts
HeaderCounts == LET d == Parse(File, -1, TRUE, FALSE, NewDict(Kw.utf8)).d IN d.pl # 0 /\ d.ent[B("last")] = << <<195, 164>> >>
=============================================================================
