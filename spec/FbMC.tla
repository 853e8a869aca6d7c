--------------------------------- MODULE FbMC ---------------------------------
(* Fallback from a country to its base language (C14), and chains of        *)
(* dictionaries: every way in which each link can know a message.           *)
EXTENDS Drive
CONSTANTS Mode

PlH == << <<>>, B("Plural-Forms: nplurals=2; plural=(n != 1);"), B("Plural-Forms: nplurals=1; plural=0;"), B("Plural-Forms: nplurals=2; plural=n > 1;") >>
\* how a dictionary can know message a: not at all, empty, translated; forms of p: none, empty, first only, second only, one form, both
SForms == 0..2
PForms == 0..5
Lang(k) == B("L") \o <<48 + k>>
q(t) == <<QUOTE>> \o t \o <<QUOTE>>
Kb(k, t) == B(k) \o <<32>> \o q(t)
Single(k, s) == CASE s = 0 -> <<>> [] s = 1 -> << Kb("msgid", B("a")), Kb("msgstr", <<>>), <<>> >> [] s = 2 -> << Kb("msgid", B("a")), Kb("msgstr", Lang(k)), <<>> >>
Forms2(k, p) == CASE p = 1 -> << <<>>, <<>> >> [] p = 2 -> << Lang(k) \o B("0"), <<>> >> [] p = 3 -> << <<>>, Lang(k) \o B("1") >> [] p = 4 -> << Lang(k) \o B("0") >> [] p = 5 -> << Lang(k) \o B("0"), Lang(k) \o B("1") >>
Plural(k, p) == IF p = 0 THEN <<>> ELSE << Kb("msgid", B("p")), Kb("msgid_plural", B("ps")) >> \o TLCEval([ i \in 1..Len(Forms2(k, p)) |-> B("msgstr[") \o <<47 + i>> \o B("] ") \o q(Forms2(k, p)[i]) ]) \o << <<>> >>
WithCx(cx, ls) == IF ls = <<>> \/ cx = 0 THEN ls ELSE << Kb("msgctxt", B("c")) >> \o ls
Po(k, pl, s, p, cx) == Joined(<< Kb("msgid", <<>>), Kb("msgstr", <<>>), q(B("Content-Type: text/plain; charset=UTF-8\\n")) >> \o (IF pl = 1 THEN <<>> ELSE << q(PlH[pl] \o B("\\n")) >>) \o << <<>> >>
                               \o WithCx(cx, Single(k, s)) \o WithCx(cx, Plural(k, p)))
VARIABLES vOwn, vBase, vCx
\* [pl, s, p] of the country's and of the base language's catalogue; vCx: messages in a context, in none, or only one of the two
Kinds == [ pl : 1..4, s : SForms, p : PForms ]
KindsS == { k \in Kinds : k.pl <= 3 }
Zero == [ pl |-> 1, s |-> 0, p |-> 0 ]
Init == vOwn = Zero /\ vBase = Zero /\ vCx = -2
KindsQ == { k \in KindsS : k.s # 1 \/ k.p = 0 }
PickOwn == vCx = -2 /\ vOwn' \in (IF Mode = "all" THEN Kinds ELSE KindsQ) /\ vCx' = -1 /\ vBase' = vBase
PickBase == vCx = -1 /\ vBase' \in (IF Mode = "all" THEN Kinds ELSE KindsQ) /\ vCx' \in (IF Mode = "all" THEN 0..3 ELSE {0, 1, 2}) /\ vOwn' = vOwn
Next == PickOwn \/ PickBase
Spec == Init /\ [][Next]_<<vOwn, vBase, vCx>>
OwnCx == vCx \in {1, 2}
BaseCx == vCx \in {1, 3}
Qq(k, a, n) == [ op |-> "q", k |-> k, a |-> a, n |-> n ]
Put1(n, c) == [ op |-> "put", f |-> 1, dir |-> B("d"), name |-> B(n), mode |-> "ok", content |-> c ]
Ns == << 0, 1, 2 >>
Qs == << Qq("tr", <<B("a")>>, 0), Qq("trc", <<B("c"), B("a")>>, 0), Qq("trp", <<B("p"), B("ps")>>, 0), Qq("trp", <<B("p"), B("ps")>>, 1), Qq("trp", <<B("p"), B("ps")>>, 2),
         Qq("trcp", <<B("c"), B("p"), B("ps")>>, 0), Qq("trcp", <<B("c"), B("p"), B("ps")>>, 1), Qq("trcp", <<B("c"), B("p"), B("ps")>>, 2) >>
Get(l) == [ op |-> "get", m |-> 1, s |-> B(l) ]
OwnPo == Po(1, vOwn.pl, vOwn.s, vOwn.p, Bool01(OwnCx))
BasePo == Po(2, vBase.pl, vBase.s, vBase.p, Bool01(BaseCx))
Setup == << [ op |-> "fs", f |-> 1 ], Put1("de_AT.po", OwnPo), Put1("de.po", BasePo), [ op |-> "mgr", m |-> 1, f |-> 1, cs |-> Kw.utf8 ], [ op |-> "adddir", m |-> 1, dir |-> B("d"), prec |-> 0 ] >>
Out == vCx >= 0 => Show(Setup \o Qs \o << Get("de_AT"), Get("de"), Get("de_AT") >>)
SetupState == FoldLeft(LAMBDA s, e : Apply(s, e).s, S0, Setup)
\* stated on its own: the country's text, else what the base language answers, else the original
Fs == SetupState.fs[1]
AT == FromEnv(B("de_AT"))
DE == FromEnv(B("de"))
Dat == LET r == Request(Fs, SetupState.mgr[1], AT) IN Resolve(r.m.cache, AT)
Dde == LET r == Request(Fs, SetupState.mgr[1], DE) IN Resolve(r.m.cache, DE)
OwnS(cx) == vOwn.s = 2 /\ OwnCx = cx
OwnP(cx, n) == IF vOwn.p = 0 \/ OwnCx # cx THEN <<>> ELSE LET f == Forms2(1, vOwn.p) k == FormOf(FromHeader(PlH[vOwn.pl]), n) + 1 IN IF vOwn.p = 1 \/ k > Len(f) THEN <<>> ELSE f[k]
FallsBack == vCx >= 0 => \A cx \in {TRUE, FALSE} : LET c == IF cx THEN << B("c") >> ELSE <<>> IN
   /\ Tr(Dat, c, B("a")).r = IF OwnS(cx) THEN Lang(1) ELSE Tr(Dde, c, B("a")).r
   /\ \A n \in 0..3 : Trp(Dat, c, B("p"), B("ps"), n).r = IF OwnP(cx, n) # <<>> THEN OwnP(cx, n) ELSE Trp(Dde, c, B("p"), B("ps"), n).r
\* a message the country has is not looked for, nor told about
Told == vCx >= 0 => \A cx \in {TRUE, FALSE} : LET c == IF cx THEN << B("c") >> ELSE <<>> IN
   /\ (Tr(Dat, c, B("a")).info = 0) = OwnS(cx)
   /\ \A n \in 0..3 : OwnP(cx, n) # <<>> => Trp(Dat, c, B("p"), B("ps"), n).info = 0 /\ Trp(Dat, c, B("p"), B("ps"), n).err = 0
\* the base language of a language has no country, so fallback ends
ASSUME \A l \in 1..NRows : HasBase(l) => BaseLang(l) # 0 /\ ~HasBase(BaseLang(l)) /\ LCode(BaseLang(l)) = LCode(l)
=============================================================================
