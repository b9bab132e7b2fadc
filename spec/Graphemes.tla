----------------------------- MODULE Graphemes -----------------------------
(***************************************************************************)
(* Extended grapheme clusters (UAX #29, Unicode 14.0).                     *)
(*                                                                         *)
(* Two descriptions: the rules GB3..GB999 as published (`Joined`), stated  *)
(* over a whole sequence of grapheme break classes, and a streaming        *)
(* automaton (`GStep`) which sees one class at a time and remembers one of *)
(* eleven states, which is how a step-by-step segmenter has to work.       *)
(* MC_Graphemes checks that they agree.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* Grapheme break classes. *)
gAny == 0   gCR == 1   gLF == 2   gControl == 3   gExtend == 4   gPict == 5
gL == 6     gV == 7    gT == 8    gLV == 9        gLVT == 10     gPrepend == 11
gRI == 12   gSpacing == 13        gZWJ == 14
Classes == 0..14

(***************************************************************************)
(* The published rules.  Joined(s, i): no boundary between s[i] and s[i+1].*)
(***************************************************************************)
PictBefore(s, i) == (* s[1..i] ends in  \p{Extended_Pictographic} Extend*  *)
   \E j \in 1..i : s[j] = gPict /\ \A k \in (j+1)..i : s[k] = gExtend

RIsUpTo(s, i) == (* length of the run of regional indicators ending at i *)
   LET S == {j \in 1..i : \A k \in j..i : s[k] = gRI} IN
   IF S = {} THEN 0 ELSE i + 1 - (CHOOSE j \in S : \A k \in S : j <= k)

Joined(s, i) ==
   LET a == s[i]  b == s[i + 1] IN
   CASE a = gCR /\ b = gLF                              -> TRUE    \* GB3
     [] a \in {gCR, gLF, gControl}                      -> FALSE   \* GB4
     [] b \in {gCR, gLF, gControl}                      -> FALSE   \* GB5
     [] a = gL /\ b \in {gL, gV, gLV, gLVT}             -> TRUE    \* GB6
     [] a \in {gLV, gV} /\ b \in {gV, gT}               -> TRUE    \* GB7
     [] a \in {gLVT, gT} /\ b = gT                      -> TRUE    \* GB8
     [] b \in {gExtend, gZWJ}                           -> TRUE    \* GB9
     [] b = gSpacing                                    -> TRUE    \* GB9a
     [] a = gPrepend                                    -> TRUE    \* GB9b
     [] a = gZWJ /\ b = gPict /\ PictBefore(s, i - 1)   -> TRUE    \* GB11
     [] a = gRI /\ b = gRI /\ RIsUpTo(s, i) % 2 = 1     -> TRUE    \* GB12, GB13
     [] OTHER                                           -> FALSE   \* GB999

(***************************************************************************)
(* The streaming automaton.                                                *)
(***************************************************************************)
sStart == -1  sAny == 0  sCR == 1  sCtl == 2  sL == 3  sLV == 4  sLVT == 5
sPrepend == 6  sPict == 7  sPictZ == 8  sRIOdd == 9  sRIEven == 10
States == -1..10

(* State after a class that starts afresh (or is joined without history). *)
Fresh(c) == CASE c = gCR -> sCR [] c \in {gLF, gControl} -> sCtl
              [] c = gL -> sL [] c \in {gLV, gV} -> sLV [] c \in {gLVT, gT} -> sLVT
              [] c = gPrepend -> sPrepend [] c = gPict -> sPict [] c = gRI -> sRIOdd
              [] OTHER -> sAny

(* Is class c joined to what came before, in state st? *)
GJoin(st, c) ==
   CASE st = sStart                                  -> FALSE
     [] st = sCR                                     -> c = gLF
     [] st = sCtl                                    -> FALSE
     [] c \in {gCR, gLF, gControl}                   -> FALSE
     [] c \in {gExtend, gZWJ, gSpacing}              -> TRUE
     [] st = sPrepend                                -> TRUE
     [] st = sL                                      -> c \in {gL, gV, gLV, gLVT}
     [] st = sLV                                     -> c \in {gV, gT}
     [] st = sLVT                                    -> c = gT
     [] st = sPictZ                                  -> c = gPict
     [] st = sRIOdd                                  -> c = gRI
     [] OTHER                                        -> FALSE

GNext(st, c) ==
   CASE st = sPict /\ c = gExtend  -> sPict
     [] st = sPict /\ c = gZWJ     -> sPictZ
     [] st = sRIOdd /\ c = gRI     -> sRIEven
     [] OTHER                      -> Fresh(c)

(* Tabulated, for evaluation: index (st + 1) * 15 + c + 1 *)
JoinTab == [k \in 1..180 |-> GJoin(((k - 1) \div 15) - 1, (k - 1) % 15)]
NextTab == [k \in 1..180 |-> GNext(((k - 1) \div 15) - 1, (k - 1) % 15)]

(* Cluster lengths (in characters) of a sequence of classes, by the automaton. *)
Lengths(cls) ==
   LET r == FoldLeft(LAMBDA a, c :
                LET k == (a.st + 1) * 15 + c + 1 IN
                [st |-> NextTab[k],
                 n  |-> IF JoinTab[k] THEN a.n + 1 ELSE 1,
                 out |-> IF JoinTab[k] \/ a.n = 0 THEN a.out ELSE Append(a.out, a.n)],
                [st |-> sStart, n |-> 0, out |-> <<>>], cls)
   IN IF r.n = 0 THEN r.out ELSE Append(r.out, r.n)

(* The same by the published rules. *)
RuleLengths(cls) ==
   LET n == Len(cls)
       ends == SelectSeq([i \in 1..n |-> i], LAMBDA i : i = n \/ ~Joined(cls, i))
   IN [i \in 1..Len(ends) |-> ends[i] - (IF i = 1 THEN 0 ELSE ends[i - 1])]
=============================================================================
