-------------------------------- MODULE ConvMC --------------------------------
(* Conversions in every order (C08): a converter has no memory.             *)
EXTENDS Drive
CONSTANTS MaxTexts, Switch

Pairs == << <<"UTF-8", "ISO-8859-1">>, <<"ISO-8859-1", "UTF-8">>, <<"UTF-8", "ISO-2022-JP">>, <<"ISO-2022-JP", "UTF-8">>, <<"UTF-16", "UTF-8">>, <<"UTF-8", "UTF-16">>,
            <<"UTF-8", "utf-8">>, <<"KOI8-R", "UTF-8">>, <<"UTF-8", "ASCII">>, <<"BIG5", "UTF-8">>, <<"UTF-8", "SHIFT_JIS">>, <<"EUC-JP", "ISO-2022-JP">>, <<"UTF-8", "UTF-32">>,
            <<"ISO-8859-15", "UTF-16LE">>, <<"UTF-16BE", "iso-8859-2">>, <<"SHIFT_JIS", "utf-8">>, <<"ASCII", "KOI8-R">>, <<"iso-8859-7", "UTF8">>, <<"UTF-8", "FOO">>, <<"X-UNKNOWN", "UTF-8">>, <<"UTF-8", "BIG5">>, <<"utf-16", "UTF-16BE">>,
            <<"ISO-8859-1", "ASCII//TRANSLIT">>, <<"UTF-8", "ascii//translit">>, <<"iso-8859-15", "KOI8-R//TRANSLIT">>, <<"UTF-8", "ISO-8859-1//TRANSLIT">>, <<"ISO-8859-1", "FOO//TRANSLIT">> >>
Rep(t, n) == Flatten(TLCEval([ i \in 1..n |-> t ]))
Texts(cs) == CASE cs = "UTF8" -> << <<>>, B("ab"), <<195, 164>>, <<226, 130, 172>>, <<230, 151, 165, 97>>, <<240, 159, 152, 128>>, <<97, 195>>, <<97, 255, 98>>, <<227, 129, 130, 255>>, Rep(<<195, 164>>, 40), <<237, 160, 128>>, <<227, 129, 130, 97, 227, 129, 130>>, Rep(<<227, 129, 130, 97>>, 30), Rep(<<194, 189>>, 40), <<226, 128, 166, 255>>, <<192, 128>>, <<65, 0, 66>> >>
  [] cs \in {"L1", "L15", "L2", "KOI8", "L7"} -> << <<>>, B("ab"), <<228>>, <<128, 164>>, <<255, 97>>, Rep(<<228>>, 40), <<174>>, Rep(<<189>>, 17), Rep(<<189>>, 200), <<92, 34, 10>> >>
  [] cs = "ASCII" -> << <<>>, B("ab"), <<97, 128>>, <<195, 164>>, <<10, 9>> >>
  [] cs = "JIS" -> << <<>>, B("ab"), <<27, 36, 66, 70, 124, 27, 40, 66>>, <<27, 36, 66, 70, 124>>, <<27, 36>>, <<27, 36, 66, 70>>, <<27, 36, 66, 70, 124, 27, 40, 66, 97>>, <<27, 40, 66, 120>> >>
  [] cs = "U16" -> << <<>>, <<255, 254, 97, 0>>, <<254, 255, 0, 97>>, <<97, 0, 98, 0>>, <<97>>, <<61, 216, 0, 222>>, <<61, 216>>, <<0, 222, 97, 0>> >>
  [] cs = "U16BE" -> << <<>>, <<0, 97>>, <<1, 7, 0, 97>>, <<0>>, <<216, 61, 222, 0>> >>
  [] cs = "BIG5" -> << <<>>, B("a\\"), <<164, 164>>, <<179, 92, 97>>, <<165, 92, 165, 92>>, <<97, 164>> >>
  [] cs = "EUC" -> << <<>>, B("ab"), <<164, 162>>, <<198, 252, 97>>, <<97, 198>> >>
  [] cs = "SJIS" -> << <<>>, B("ab"), <<130, 160>>, <<147, 250, 97>>, <<97, 130>> >>
  [] OTHER -> << B("ab"), <<195, 164>> >>
Cs(name) == IF Known(name) THEN CanonFcn[Upper(name)] ELSE "none"
VARIABLES vPair, vSeq
Init == vPair \in 1..Len(Pairs) /\ vSeq = <<>>
\* an element of the history: a text, or the choice of another pair of charsets
Now(sq) == FoldLeft(LAMBDA p, e : IF e[1] = "ic" THEN e[2] ELSE p, vPair, sq)
Next == /\ Len(vSeq) < MaxTexts /\ vPair' = vPair
        /\ \/ \E i \in 1..Len(Texts(Cs(B(Pairs[Now(vSeq)][1])))) : vSeq' = Append(vSeq, <<"cv", i>>)
           \/ Switch /\ (IF vSeq = <<>> THEN TRUE ELSE vSeq[Len(vSeq)][1] = "cv") /\ \E p \in 1..Len(Pairs) : vSeq' = Append(vSeq, <<"ic", p>>)
Spec == Init /\ [][Next]_<<vPair, vSeq>>
Ic(k, p) == [ op |-> "ic", k |-> k, from |-> B(Pairs[p][1]), to |-> B(Pairs[p][2]) ]
Calls == FoldLeft(LAMBDA a, e : IF e[1] = "ic" THEN [ p |-> e[2], c |-> Append(a.c, Ic(1, e[2])) ]
                                ELSE [ a EXCEPT !.c = Append(@, [ op |-> "cv", k |-> 1, t |-> Texts(Cs(B(Pairs[a.p][1])))[e[2]] ]) ],
                  [ p |-> vPair, c |-> << Ic(1, vPair) >> ], vSeq).c
Out == (vSeq # <<>> /\ (Switch => vSeq[Len(vSeq)][1] = "cv")) => Show(Calls)
\* conversion to a charset and back gives the text, if all of it can be converted
BackAndForth == vSeq # <<>> /\ Len(vSeq) = 1 /\ vSeq[1][1] = "cv" /\ Known(B(Pairs[vPair][1])) /\ Known(B(Pairs[vPair][2])) =>
  LET f == B(Pairs[vPair][1]) t == B(Pairs[vPair][2])
      x == Texts(Cs(f))[vSeq[1][2]]
      a == Convert(MkConv(f, t), x)
  IN a.err = 0 /\ ~a.unk /\ CanonFcn[Upper(t)] \notin {"U32"} \cup Trans =>
       LET b == Convert(MkConv(t, f), a.r) IN b.err = 0 /\ ( CanonFcn[Upper(f)] \notin {"U16", "JIS"} => b.r = x )
=============================================================================
