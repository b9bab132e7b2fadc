------------------------------- MODULE Locale -------------------------------
(***************************************************************************)
(* Which locale applies, and whether it is an East Asian one.  Names are    *)
(* sequences of characters, as in Text.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Lower == 97..122   Upper == 65..90   Dot == 46   At == 64   Under == 95   Minus == 45
LowerC(c) == IF c \in Upper THEN c + 32 ELSE c
ToLower(t) == [i \in 1..Len(t) |-> LowerC(t[i])]
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Ends(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p

sC == <<67>>  sPOSIX == <<80, 79, 83, 73, 88>>
sNarrow == <<64, 99, 106, 107, 95, 110, 97, 114, 114, 111, 119>>            \* @cjk_narrow
sJa == <<106, 97>>  sKo == <<107, 111>>  sZh == <<122, 104>>
sUtf8 == {<<117, 116, 102, 45, 56>>, <<117, 116, 102, 56>>}                 \* utf-8 utf8
EastAsianCharsets == {
   <<106, 105, 115>>, <<101, 117, 99, 106, 112>>, <<101, 117, 99, 107, 114>>, <<101, 117, 99, 99, 110>>,   \* jis eucjp euckr euccn
   <<115, 106, 105, 115>>, <<99, 112, 57, 51, 50>>, <<99, 112, 53, 49, 57, 51, 50>>,                      \* sjis cp932 cp51932
   <<99, 112, 57, 51, 54>>, <<99, 112, 57, 52, 57>>, <<99, 112, 57, 53, 48>>,                             \* cp936 cp949 cp950
   <<98, 105, 103, 53>>, <<103, 98, 107>>, <<103, 98, 50, 51, 49, 50>>}                                   \* big5 gbk gb2312

(* ll[l][_CC].charset: the number of characters up to and including the dot; 0 if not of that form. *)
HeadLen(t) ==
   LET At2(i, S) == i <= Len(t) /\ t[i] \in S
       lang(n) == \A i \in 1..n : At2(i, Lower)
       after(n) == IF At2(n + 1, {Under}) /\ At2(n + 2, Upper) /\ At2(n + 3, Upper) /\ At2(n + 4, {Dot}) /\ Len(t) > n + 4 THEN n + 4
                   ELSE IF At2(n + 1, {Dot}) /\ Len(t) > n + 1 THEN n + 1 ELSE 0
   IN IF lang(3) /\ after(3) > 0 THEN after(3) ELSE IF lang(2) /\ after(2) > 0 THEN after(2) ELSE 0
RawCharset(t) == ToLower(SubSeq(t, HeadLen(t) + 1, Len(t)))
BeforeAt(t) == LET n == SelectInSeq(t, LAMBDA c : c = At) IN IF n = 0 THEN t ELSE SubSeq(t, 1, n - 1)
CJK(t) == Starts(t, sJa) \/ Starts(t, sKo) \/ Starts(t, sZh)
EastAsianName(t) ==
   LET raw == RawCharset(t) cs == BeforeAt(raw) IN
   IF Ends(raw, sNarrow) THEN FALSE
   ELSE cs \in EastAsianCharsets \/ (cs \in sUtf8 /\ CJK(t))
CLocale(t) == t \in {sC, sPOSIX} \/ (Len(t) > 1 /\ t[1] = 67 /\ t[2] \in {Dot, Minus})
EastAsianLocale(t) == ~CLocale(t) /\ EastAsianName(t)

(* The locale: the first of the three variables that is not empty. *)
Applies(all, ctype, lang) == IF all # <<>> THEN all ELSE IF ctype # <<>> THEN ctype ELSE lang
FromEnv(all, ctype, lang) == EastAsianLocale(Applies(all, ctype, lang))
(* At start-up RUNEWIDTH_EASTASIAN overrides it. *)
AtStart(rw, all, ctype, lang) == IF rw = <<>> THEN FromEnv(all, ctype, lang) ELSE rw = <<49>>
=============================================================================
