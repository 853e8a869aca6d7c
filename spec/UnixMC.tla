-------------------------------- MODULE UnixMC --------------------------------
(* The real file system (C26): every set of up to MaxItems entries in a      *)
(* scratch directory, listed, read, and used by a manager, which has to      *)
(* answer as one over an equal file system in memory.                        *)
EXTENDS Drive
CONSTANTS MaxItems

q(s) == <<QUOTE>> \o B(s) \o <<QUOTE>>
K(k, s) == B(k) \o <<32>> \o q(s)
Po(n) == Joined(<< K("msgid", ""), B("msgstr ") \o q("Content-Type: text/plain; charset=UTF-8\\n"), <<>>, K("msgid", "a"), K("msgstr", n), <<>>, K("msgid", "k" \o n), K("msgstr", "K") >>)
Root == B("u")
Dir == B("u/po")
Other == B("u/tgt")
P(n) == Dir \o <<47>> \o n
Long == TLCEval([ i \in 1..9000 |-> IF i % 61 = 0 THEN 10 ELSE 33 + (i % 90) ])
AllBytes == TLCEval([ i \in 1..256 |-> i - 1 ])
Uw(n, c) == [ op |-> "uw", path |-> P(n), content |-> c ]
Mk(n) == [ op |-> "umk", path |-> P(n) ]
Ln(n, to) == [ op |-> "uln", path |-> P(n), to |-> to ]
Items == << Uw(B("de.po"), Po("1")), Uw(B("de_AT.po"), Po("2")), Uw(B("sr@latin.po"), Po("3")), Uw(B(".hidden.po"), Po("4")), Uw(B("README"), B("text")), Uw(B("empty.po"), <<>>), Uw(B("bin"), AllBytes),
            Uw(B("big"), Long), Mk(B("sub")), Mk(B("fr.po")), Ln(B("it.po"), B("u/none.po")), Ln(B("pt.po"), B("u/tgt/x.po")), Ln(B("es.po"), B("u/tgt")), Uw(<<195, 164, 32, 10, 98>>, B("odd name")),
            Uw(B("de.po~"), Po("5")), Uw(B(" "), B("x")), Uw(B("a.b.po.bak"), <<13, 10>>), Ln(B("lnk"), B("u/po/de.po")) >>
NItems == Len(Items)
VARIABLES vIt
Init == vIt = {}
Next == Cardinality(vIt) < MaxItems /\ \E i \in 1..NItems : (\A j \in vIt : j < i) /\ vIt' = vIt \cup {i}
Spec == Init /\ [][Next]_vIt
Chosen == SetToSortSeq(vIt, LAMBDA a, b : a > b)
Setup == << [ op |-> "urm", path |-> Root ], [ op |-> "umk", path |-> Root ], [ op |-> "umk", path |-> Other ], [ op |-> "uw", path |-> B("u/tgt/x.po"), content |-> Po("9") ], [ op |-> "umk", path |-> Dir ] >>
         \o TLCEval([ i \in 1..Len(Chosen) |-> Items[Chosen[i]] ])
Uls(d) == [ op |-> "uls", dir |-> d ]
Cat(i) == [ op |-> "ucat", path |-> Items[i].path ]
Cats == TLCEval([ i \in 1..Len(Chosen) |-> Cat(Chosen[i]) ])
\* an equal file system in memory
S1 == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup)
Eq == USeq(S1, Dir)
Puts == TLCEval([ i \in 1..Len(Eq) |-> [ op |-> "put", f |-> 1, dir |-> Dir, name |-> Eq[i].name, mode |-> IF Eq[i].mode = "dir" THEN "bad" ELSE Eq[i].mode, content |-> Eq[i].content ] ])
Get(m, l) == [ op |-> "get", m |-> m, s |-> B(l) ]
Mgr(m, f) == << [ op |-> "mgr", m |-> m, f |-> f, cs |-> Kw.utf8 ], [ op |-> "adddir", m |-> m, dir |-> Dir, prec |-> 0 ], [ op |-> "langs", m |-> m ], Get(m, "de_AT"), Get(m, "sr"), Get(m, "pt"), Get(m, "fr"), Get(m, "it"), Get(m, "de_AT") >>
Out == Show(Setup \o << Uls(Dir) >> \o Cats \o Mgr(1, 0) \o << [ op |-> "fs", f |-> 1 ] >> \o Puts \o Mgr(2, 1)
            \o << [ op |-> "ucat", path |-> P(B("nofile")) ], Uls(B("u/nodir")), Uls(Other), [ op |-> "mgr", m |-> 3, f |-> 0, cs |-> Kw.utf8 ], [ op |-> "adddir", m |-> 3, dir |-> B("u/nodir"), prec |-> 0 ],
                  Get(3, "de"), [ op |-> "langs", m |-> 3 ] >>
            \o (IF Cats = <<>> THEN <<>> ELSE << [ op |-> "urm", path |-> Items[Chosen[1]].path ], Uls(Dir) >>) \o << [ op |-> "urm", path |-> Root ], Uls(Dir) >>)
\* the specification's two file systems agree
Alike == LET l == FromEnv(B("de_AT")) m == [ NewMgr(0, Kw.utf8) EXCEPT !.path = << Dir >> ]
             fs == FsOf(S1, m)
         IN fs[Dir].files = Eq /\ Children(S1, Dir) = { Drop(Items[i].path, Len(Dir) + 1) : i \in vIt } /\ Request(fs, m, l).ok
=============================================================================
