-------------------------------- MODULE EnvMC --------------------------------
(* Locale strings, language names (C16) and file names (C23).               *)
EXTENDS Drive
CONSTANTS Mode, MaxLen

\* parts of a locale string; <<>> for an absent part, separators included otherwise
Langs == { B("de"), B("zh"), B("sr"), B("xx"), <<>>, B("d"), B("DE"), B("ca"), B("pt") }
Cs == { <<>>, B("_"), B("_DE"), B("_CN"), B("_XX"), B("_ES"), B("_BR"), B("_de"), B("_RS") }
Codesets == { <<>>, B("."), B(".UTF-8"), B(".a_b"), B(".x.y"), B(".._"), B(".ISO-8859-1_DE"), <<46, 195, 164, 255>> }
Mods == { <<>>, B("@"), B("@euro"), B("@latin"), B("@valencia"), B("@x_y"), B("@a.b"), B("@a@b") }
Tokens == CASE Mode = "chars" -> << B("d"), B("e"), B("_"), B("."), B("@"), B("D"), B("E"), B("sr"), B("latin"), <<195>> >>
            [] OTHER -> << B("a"), B("Z"), B("_"), B("."), B("po"), B(".po"), B("-"), B("0"), <<195>>, B("p"), B("@"), B("xY") >>
NA == Len(LangData.aliases)
Variant(s, k) == CASE k = 1 -> s [] k = 2 -> Upper(s) [] k = 3 -> [ i \in 1..Len(s) |-> IF i % 2 = 1 THEN ToUpper(s[i]) ELSE ToLower(s[i]) ]
                   [] k = 4 -> [ i \in 1..Len(s) |-> IF i = 1 THEN ToUpper(s[i]) ELSE s[i] ] [] k = 5 -> Append(s, 32) [] k = 6 -> Take(s, Len(s) - 1) [] k = 7 -> s \o B("@x") [] k = 8 -> Lower(s)
VARIABLES vS, vN
Init == vS = <<>> /\ vN = 0
Next == CASE Mode = "parts" -> vN = 0 /\ vN' = 1 /\ \E l \in Langs, c \in Cs : vS' = <<l, c>>
          [] Mode = "names" -> vN = 0 /\ vS' = <<>> /\ vN' \in 1..NA
          [] OTHER -> vN < MaxLen /\ vN' = vN + 1 /\ \E i \in 1..Len(Tokens) : vS' = vS \o Tokens[i]
Spec == Init /\ [][Next]_<<vS, vN>>
Env(s) == [ op |-> "env", s |-> s ]
Name(s) == [ op |-> "name", s |-> s ]
Fn(s) == [ op |-> "fn", s |-> s ]
Ends == SetToSeq(Codesets \X Mods)
PartsOut == Flatten(TLCEval([ i \in 1..Len(Ends) |-> LET s == vS[1] \o vS[2] \o Ends[i][1] \o Ends[i][2] IN << Env(s), Name(s) >> ]))
NamesOut == Flatten(TLCEval([ k \in 1..8 |-> LET s == Variant(LangData.aliases[vN].k, k) IN << Name(s), Env(s) >> ]))
Out == CASE Mode = "parts" -> vN = 0 \/ Show(PartsOut) [] Mode = "names" -> vN = 0 \/ Show(NamesOut)
         [] Mode = "chars" -> Show(<< Env(vS), Name(vS) >>) [] Mode = "files" -> Show(<< Fn(vS), Fn(vS \o B(".po")), Fn(FileLocale(vS)) >>)
\* as documented
Country(c) == IF c = <<>> THEN <<>> ELSE Tail(c)
AsParts == (Mode = "parts" /\ vN = 1) => \A e \in Codesets \X Mods :
             LET s == vS[1] \o vS[2] \o e[1] \o e[2] IN
             FromEnv(s) = FromSpec(vS[1], Country(vS[2]), IF e[2] = <<>> THEN <<>> ELSE Tail(e[2]))
CodesetFree == (Mode = "parts" /\ vN = 1) => \A c1, c2 \in Codesets, m \in Mods : FromEnv(vS[1] \o vS[2] \o c1 \o m) = FromEnv(vS[1] \o vS[2] \o c2 \o m)
AnyCase == (Mode = "names" /\ vN > 0) => LET a == LangData.aliases[vN] IN
             Lower(a.k) = a.k => \A k \in {1, 2, 3, 4, 8} : FromName(Variant(a.k, k)) = FromEnv(a.v)
\* file names
Once(s) == IF HasSuffix(s, DotPo) THEN FileLocale(s) = FileLocale(Take(s, Len(s) - 3)) \/ HasSuffix(Take(s, Len(s) - 3), DotPo)
           ELSE FileLocale(FileLocale(s)) = FileLocale(s)
Mapped == Mode = "files" =>
  LET r == FileLocale(vS)
      t == IF HasSuffix(vS, DotPo) THEN Take(vS, Len(vS) - 3) ELSE vS
      u == PosOf(t, 95)
      run == { i \in 1..Len(t) : u > 0 /\ i > u /\ \A j \in (u+1)..i : IsAlpha(t[j]) }
  IN Len(r) = Len(t) /\ (\A i \in 1..Len(t) : r[i] = IF i \in run THEN ToUpper(t[i]) ELSE t[i]) /\ Once(vS)
=============================================================================
