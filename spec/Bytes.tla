------------------------------- MODULE Bytes -------------------------------
(* TLCEval makes TLC build a function once instead of at every use.        *)
(* Texts are sequences of byte values 0..255.  B("abc") writes one down.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChars == { SubSeq(Ascii, i, i) : i \in 1..Len(Ascii) }
CharCode == TLCEval([ c \in AsciiChars |-> 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c ])
B(s) == TLCEval([ i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)] ])

NL == 10
QUOTE == 34
BACKSLASH == 92
HASH == 35

IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(s) == TLCEval([ i \in 1..Len(s) |-> ToUpper(s[i]) ])
Lower(s) == TLCEval([ i \in 1..Len(s) |-> ToLower(s[i]) ])

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

\* position of the first element satisfying P at or after `from`, 0 if none
FirstPos(s, from, P(_)) ==
  IF \E i \in from..Len(s) : P(s[i])
  THEN CHOOSE i \in from..Len(s) : P(s[i]) /\ \A j \in from..(i-1) : ~P(s[j])
  ELSE 0
PosOf(s, c) == FirstPos(s, 1, LAMBDA x : x = c)
HasSub(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
Strip(s, Drop1(_)) == SelectSeq(s, LAMBDA c : ~Drop1(c))

\* the pieces between the occurrences of byte c (always at least one)
SplitAt(s, c) ==
  LET f == FoldLeft(LAMBDA a, x : IF x = c THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                  ELSE [done |-> a.done, cur |-> Append(a.cur, x)],
                    [done |-> <<>>, cur |-> <<>>], s)
  IN Append(f.done, f.cur)

RangeOf(s) == { s[i] : i \in 1..Len(s) }
\* f updated or extended at k
Put(f, k, v) == TLCEval([ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ])
EmptyFcn == [ x \in {} |-> 0 ]
Bool01(b) == IF b THEN 1 ELSE 0

\* lexicographic order of texts
LexLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == FirstPos([ i \in 1..n |-> IF a[i] = b[i] THEN 0 ELSE 1 ], 1, LAMBDA x : x = 1)
  IN IF d = 0 THEN Len(a) < Len(b) ELSE a[d] < b[d]
=============================================================================
