------------------------------ MODULE Charset ------------------------------
(* Character sets: decoding to code points, encoding from code points, and  *)
(* the conversion service IConv offers on top (specified independently of   *)
(* any call order: a function of the text and the two names).               *)
EXTENDS Bytes, CharsetTables

Canon == <<
  <<B("UTF-8"), "UTF8">>, <<B("UTF8"), "UTF8">>,
  <<B("ASCII"), "ASCII">>, <<B("US-ASCII"), "ASCII">>, <<B("ANSI_X3.4-1968"), "ASCII">>,
  <<B("ISO-8859-1"), "L1">>, <<B("ISO8859-1"), "L1">>, <<B("LATIN1"), "L1">>,
  <<B("ISO-8859-2"), "L2">>, <<B("ISO-8859-15"), "L15">>, <<B("KOI8-R"), "KOI8">>, <<B("ISO-8859-7"), "L7">>,
  <<B("UTF-16"), "U16">>, <<B("UTF-16LE"), "U16LE">>, <<B("UTF-16BE"), "U16BE">>,
  <<B("UTF-32"), "U32">>, <<B("UTF-32LE"), "U32LE">>, <<B("UTF-32BE"), "U32BE">>,
  <<B("BIG5"), "BIG5">>, <<B("EUC-JP"), "EUC">>, <<B("SHIFT_JIS"), "SJIS">>, <<B("ISO-2022-JP"), "JIS">>,
  <<B("ASCII//TRANSLIT"), "ASCII~">>, <<B("US-ASCII//TRANSLIT"), "ASCII~">>, <<B("ISO-8859-1//TRANSLIT"), "L1~">>, <<B("ISO-8859-15//TRANSLIT"), "L15~">>, <<B("KOI8-R//TRANSLIT"), "KOI8~">> >>
\* targets that replace what they lack
Trans == { "ASCII~", "L1~", "L15~", "KOI8~" }
CanonFcn == TLCEval([ n \in { Canon[i][1] : i \in 1..Len(Canon) } |-> Canon[CHOOSE i \in 1..Len(Canon) : Canon[i][1] = n][2] ])
Known(name) == Upper(name) \in DOMAIN CanonFcn
\* names no system supports; about all others the model makes no statement
NoSuch == { B("NOPE-9"), B("NOPE-8"), B("X-UNKNOWN"), B("FOO//TRANSLIT"), B("EBCDIC-NONE"), B("FOO") }
\* "yes", "no" or "unknown"
Support(from, to) ==
  IF Upper(from) = Upper(to) \/ (Known(from) /\ Known(to) /\ CanonFcn[Upper(from)] \notin Trans) THEN "yes"
  ELSE IF Upper(from) \in NoSuch \/ Upper(to) \in NoSuch THEN "no" ELSE "unknown"
Supported(from, to) == Support(from, to) = "yes"

TabOf(cs) == CASE cs = "L2" -> Latin2Tab [] cs = "L15" -> Latin15Tab [] cs = "KOI8" -> Koi8Tab [] cs = "L7" -> Greek7Tab
SingleByte == {"L2", "L15", "KOI8", "L7"}
\* inverse of the single byte tables
Inv(tab) == TLCEval([ c \in { tab[i] : i \in 1..256 } \ {-1} |-> (CHOOSE i \in 1..256 : tab[i] = c) - 1 ])
InvL2 == Inv(Latin2Tab)
InvL15 == Inv(Latin15Tab)
InvKoi8 == Inv(Koi8Tab)
InvL7 == Inv(Greek7Tab)
InvOf(cs) == CASE cs = "L2" -> InvL2 [] cs = "L15" -> InvL15 [] cs = "KOI8" -> InvKoi8 [] cs = "L7" -> InvL7

MbTab(cs) == CASE cs = "BIG5" -> Big5Tab [] cs = "EUC" -> EucTab [] cs = "SJIS" -> SjisTab
MbDec(t) == TLCEval([ b \in { t[i][2] : i \in 1..Len(t) } |-> t[CHOOSE i \in 1..Len(t) : t[i][2] = b][1] ])
MbEnc(t) == TLCEval([ c \in { t[i][1] : i \in 1..Len(t) } |-> t[CHOOSE i \in 1..Len(t) : t[i][1] = c][2] ])
Big5Dec == MbDec(Big5Tab)
EucDec == MbDec(EucTab)
SjisDec == MbDec(SjisTab)
Big5Enc == MbEnc(Big5Tab)
EucEnc == MbEnc(EucTab)
SjisEnc == MbEnc(SjisTab)
DecOf(cs) == CASE cs = "BIG5" -> Big5Dec [] cs = "EUC" -> EucDec [] cs = "SJIS" -> SjisDec
EncOf(cs) == CASE cs = "BIG5" -> Big5Enc [] cs = "EUC" -> EucEnc [] cs = "SJIS" -> SjisEnc
MultiByte == {"BIG5", "EUC", "SJIS"}
\* the modelled lead bytes; anything else above 127 is outside the model's alphabet
IsLead(c) == c >= 129 /\ c <= 254

------------------------------------------------------------------------------
(* Decoders: fold with [out, pend, stop]; what follows the first invalid    *)
(* sequence is not delivered.  ok: everything was consumed.  unk: the text  *)
(* contains a character outside the model's tables.                         *)
D0 == [ out |-> <<>>, pend |-> <<>>, stop |-> FALSE, mode |-> 0, unk |-> FALSE ]
Emit(a, cp) == [ a EXCEPT !.out = Append(@, cp), !.pend = <<>> ]
Stop(a) == [ a EXCEPT !.stop = TRUE ]

Utf8Step(a, c) ==
  IF a.stop THEN a
  ELSE IF a.pend = <<>>
    THEN IF c < 128 THEN Emit(a, c)
         ELSE IF c >= 194 /\ c <= 244 THEN [ a EXCEPT !.pend = <<c>> ]
         ELSE Stop(a)
  ELSE LET l == a.pend[1]
           lo == IF Len(a.pend) > 1 THEN 128 ELSE CASE l = 224 -> 160 [] l = 240 -> 144 [] OTHER -> 128
           hi == IF Len(a.pend) > 1 THEN 191 ELSE CASE l = 237 -> 159 [] l = 244 -> 143 [] OTHER -> 191
           p == Append(a.pend, c)
           need == IF l < 224 THEN 2 ELSE IF l < 240 THEN 3 ELSE 4
       IN IF c < lo \/ c > hi THEN Stop(a)
          ELSE IF Len(p) < need THEN [ a EXCEPT !.pend = p ]
          ELSE Emit(a, CASE need = 2 -> (p[1] - 192) * 64 + p[2] - 128
                         [] need = 3 -> (p[1] - 224) * 4096 + (p[2] - 128) * 64 + p[3] - 128
                         [] need = 4 -> (p[1] - 240) * 262144 + (p[2] - 128) * 4096 + (p[3] - 128) * 64 + p[4] - 128)
AsciiStep(a, c) == IF a.stop THEN a ELSE IF c < 128 THEN Emit(a, c) ELSE Stop(a)
TabStep(t, a, c) == IF a.stop THEN a ELSE IF t[c+1] >= 0 THEN Emit(a, t[c+1]) ELSE Stop(a)
MbStep(d, a, c) ==
  IF a.stop THEN a
  ELSE IF a.pend = <<>> THEN IF c < 128 THEN Emit(a, c) ELSE IF IsLead(c) THEN [ a EXCEPT !.pend = <<c>> ] ELSE [ Stop(a) EXCEPT !.unk = TRUE ]
  ELSE IF <<a.pend[1], c>> \in DOMAIN d THEN Emit(a, d[<<a.pend[1], c>>]) ELSE [ Stop(a) EXCEPT !.unk = TRUE ]
\* mode 0: byte order not known yet; 1: little endian; 2: big endian
U16Step(a, c) ==
  IF a.stop THEN a
  ELSE LET p == Append(a.pend, c) IN
    IF Len(p) \in {1, 3} THEN [ a EXCEPT !.pend = p ]
    ELSE IF a.mode = 0 /\ p = <<255, 254>> THEN [ a EXCEPT !.pend = <<>>, !.mode = 1 ]
    ELSE IF a.mode = 0 /\ p = <<254, 255>> THEN [ a EXCEPT !.pend = <<>>, !.mode = 2 ]
    ELSE LET m == IF a.mode = 0 THEN 1 ELSE a.mode
             U(i) == IF m = 1 THEN p[i] + 256 * p[i+1] ELSE 256 * p[i] + p[i+1]
         IN IF Len(p) = 2
              THEN IF U(1) >= 56320 /\ U(1) <= 57343 THEN Stop(a)
                   ELSE IF U(1) >= 55296 /\ U(1) <= 56319 THEN [ a EXCEPT !.pend = p, !.mode = m ]
                   ELSE [ Emit(a, U(1)) EXCEPT !.mode = m ]
              ELSE IF U(3) >= 56320 /\ U(3) <= 57343
                     THEN [ Emit(a, 65536 + (U(1) - 55296) * 1024 + U(3) - 56320) EXCEPT !.mode = m ]
                     ELSE Stop(a)
\* ISO-2022-JP: mode 0 ASCII, 1 JIS X 0208; JIS bytes are the EUC bytes minus 128
JisStep(a, c) ==
  IF a.stop THEN a
  ELSE LET p == Append(a.pend, c) IN
    IF p[1] = 27
      THEN IF Len(p) < 3 THEN [ a EXCEPT !.pend = p ]
           ELSE IF p = <<27, 36, 66>> THEN [ a EXCEPT !.pend = <<>>, !.mode = 1 ]
           ELSE IF p = <<27, 40, 66>> THEN [ a EXCEPT !.pend = <<>>, !.mode = 0 ]
           ELSE [ Stop(a) EXCEPT !.unk = TRUE ]
    ELSE IF a.mode = 0 \/ (c < 33 /\ a.pend = <<>>) THEN IF c < 128 THEN Emit(a, c) ELSE Stop(a)
    ELSE IF Len(p) < 2 THEN [ a EXCEPT !.pend = p ]
    ELSE IF <<p[1] + 128, p[2] + 128>> \in DOMAIN EucDec THEN Emit(a, EucDec[<<p[1] + 128, p[2] + 128>>]) ELSE [ Stop(a) EXCEPT !.unk = TRUE ]

DecodeAll(cs, t) ==
  CASE cs = "UTF8"  -> FoldLeft(Utf8Step, D0, t)
    [] cs = "ASCII" -> FoldLeft(AsciiStep, D0, t)
    [] cs = "L1"    -> [ D0 EXCEPT !.out = t ]
    [] cs \in SingleByte -> FoldLeft(LAMBDA a, c : TabStep(TabOf(cs), a, c), D0, t)
    [] cs \in MultiByte  -> FoldLeft(LAMBDA a, c : MbStep(DecOf(cs), a, c), D0, t)
    [] cs = "U16"   -> FoldLeft(U16Step, D0, t)
    [] cs = "U16LE" -> FoldLeft(U16Step, [D0 EXCEPT !.mode = 1], t)
    [] cs = "U16BE" -> FoldLeft(U16Step, [D0 EXCEPT !.mode = 2], t)
    [] cs = "JIS"   -> FoldLeft(JisStep, D0, t)
Decode(cs, t) == LET a == DecodeAll(cs, t) IN [ cps |-> a.out, ok |-> ~a.stop /\ a.pend = <<>>, unk |-> a.unk ]

------------------------------------------------------------------------------
(* Encoders: one code point to bytes, <<>> if it has none (stateless sets)  *)
Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
LE16(v) == <<v % 256, v \div 256>>
U16Of(c) == IF c < 65536 THEN LE16(c) ELSE LE16(55296 + ((c - 65536) \div 1024)) \o LE16(56320 + ((c - 65536) % 1024))
Swap16(s) == TLCEval([ i \in 1..Len(s) |-> IF i % 2 = 1 THEN s[i+1] ELSE s[i-1] ])
U32Of(c) == <<c % 256, (c \div 256) % 256, c \div 65536, 0>>
Rev4(s) == <<s[4], s[3], s[2], s[1]>>
EncOwn(cs, c) ==
  CASE cs = "UTF8"  -> Utf8Of(c)
    [] cs = "ASCII" -> IF c < 128 THEN <<c>> ELSE <<>>
    [] cs = "L1"    -> IF c < 256 THEN <<c>> ELSE <<>>
    [] cs \in SingleByte -> IF c \in DOMAIN InvOf(cs) THEN <<InvOf(cs)[c]>> ELSE <<>>
    [] cs \in MultiByte  -> IF c < 128 THEN <<c>> ELSE IF c \in DOMAIN EncOf(cs) THEN EncOf(cs)[c] ELSE <<>>
    [] cs \in {"U16", "U16LE"} -> U16Of(c)
    [] cs = "U16BE" -> Swap16(U16Of(c))
    [] cs \in {"U32", "U32LE"} -> U32Of(c)
    [] cs = "U32BE" -> Rev4(U32Of(c))
    [] cs = "JIS"   -> IF c < 128 THEN <<c>> ELSE IF c \in DOMAIN EucEnc THEN <<EucEnc[c][1] - 128, EucEnc[c][2] - 128>> ELSE <<>>
\* replacements (an extract); a replacement may be much longer than the character
TransTab == <<
  <<223, B("ss")>>, <<188, B(" 1/4 ")>>, <<189, B(" 1/2 ")>>, <<190, B(" 3/4 ")>>, <<171, B("<<")>>, <<187, B(">>")>>, <<169, B("(C)")>>, <<174, B("(R)")>>,
  <<160, B(" ")>>, <<173, B("-")>>, <<198, B("AE")>>, <<230, B("ae")>>, <<338, B("OE")>>, <<339, B("oe")>>, <<8364, B("EUR")>>, <<8220, <<QUOTE>>>>, <<8216, B("'")>>,
  <<8230, B("...")>>, <<8211, B("-")>>, <<8212, B("--")>>, <<8482, B("(TM)")>>, <<8594, B("->")>>, <<64257, B("fi")>>, <<8531, B(" 1/3 ")>>, <<181, B("u")>>, <<215, B("x")>>,
  <<228, B("?")>>, <<233, B("?")>>, <<12354, B("?")>>, <<128512, B("?")>> >>
TransFcn == TLCEval([ c \in { TransTab[i][1] : i \in 1..Len(TransTab) } |-> TransTab[CHOOSE i \in 1..Len(TransTab) : TransTab[i][1] = c][2] ])
BaseOf(cs) == CASE cs = "ASCII~" -> "ASCII" [] cs = "L1~" -> "L1" [] cs = "L15~" -> "L15" [] cs = "KOI8~" -> "KOI8"
EncOne(cs, c) ==
  IF cs \notin Trans THEN EncOwn(cs, c)
  ELSE LET b == EncOwn(BaseOf(cs), c) IN IF b # <<>> \/ c \notin DOMAIN TransFcn THEN b ELSE TransFcn[c]
JisShift(mode) == IF mode = 1 THEN <<27, 36, 66>> ELSE <<27, 40, 66>>
EncStep(cs, a, c) ==
  IF a.stop THEN a
  ELSE LET b == EncOne(cs, c)
           m == IF cs = "JIS" /\ c >= 128 THEN 1 ELSE 0
       IN IF b = <<>> THEN [ a EXCEPT !.stop = TRUE, !.unk = cs \in MultiByte \cup Trans \/ cs = "JIS" ]
          ELSE [ a EXCEPT !.out = @ \o (IF m # a.mode THEN JisShift(m) ELSE <<>>) \o b, !.mode = m ]
Encode(cs, cps) ==
  LET bom == IF cps = <<>> THEN <<>> ELSE CASE cs = "U16" -> <<255, 254>> [] cs = "U32" -> <<255, 254, 0, 0>> [] OTHER -> <<>>
      a == FoldLeft(LAMBDA x, c : EncStep(cs, x, c), [ out |-> bom, stop |-> FALSE, mode |-> 0, unk |-> FALSE ], cps)
  IN [ t |-> a.out \o (IF a.mode = 1 THEN JisShift(0) ELSE <<>>), ok |-> ~a.stop, unk |-> a.unk ]

------------------------------------------------------------------------------
(* The service.  A converter is <<>> (no conversion) or <<from, to>>.       *)
NoConv == << >>
MkConv(from, to) == IF Upper(from) = Upper(to) THEN NoConv ELSE << CanonFcn[Upper(from)], CanonFcn[Upper(to)] >>
\* [r: converted text, err: number of error reports (0 or 1), unk: outside the model]
Convert(cv, t) ==
  IF cv = NoConv \/ t = <<>> THEN [ r |-> t, err |-> 0, unk |-> FALSE ]
  ELSE LET d == Decode(cv[1], t)
           e == Encode(cv[2], d.cps)
       IN [ r |-> e.t, err |-> IF d.ok /\ e.ok THEN 0 ELSE 1,
            unk |-> d.unk \/ e.unk \/ (cv[2] \in {"U16", "U32"} /\ d.cps = <<>>) ]
=============================================================================
