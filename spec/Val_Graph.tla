----------------------------- MODULE Val_Graph -----------------------------
(***************************************************************************)
(* Recorded segmentations (C16, C17, C23).                                 *)
(*  k = "seg":  one text: pieces from the iterator and from stepping       *)
(*  k = "cls":  all sequences over the class alphabet from an index on     *)
(*  k = "runs": for every code point, its behaviour in fixed contexts      *)
(***************************************************************************)
EXTENDS StepWidth, ValCore, FiniteSets
P == IOEnv.PROP
Fail(ok, why) == IF ok THEN {} ELSE {ToString(why)}
ClusterLensOf(t) == Lengths([i \in 1..Len(t) |-> Gcb(t[i])])
Pieces(t, ls) == LET from == FoldLeft(LAMBDA a, l : Append(a, a[Len(a)] + l), <<0>>, ls)
                 IN [i \in 1..Len(ls) |-> SubSeq(t, from[i] + 1, from[i] + ls[i])]
Decoded(t) == [i \in 1..Len(t) |-> CP(t[i])]

(* The text: r.t itself, or r.r times r.t between r.p and r.q. *)
TextOf(r) == IF r.r = 0 THEN r.t
             ELSE LET k == Len(r.t) IN r.p \o [i \in 1..(k * r.r) |-> r.t[((i - 1) % k) + 1]] \o r.q
BadSeg(r0, Q) ==
   LET r == IF r0.r = 0 THEN r0 ELSE [r0 EXCEPT !.t = TLCEval(TextOf(r0))] IN
   CASE Q = "C16" ->
          Fail(\A i \in 1..Len(r.st) : r.st[i] # <<>>, "empty piece")
          \cup Fail(Flat(r.st) = r.t, "pieces do not make up the text")
          \cup Fail(r.restok, "remainder") \cup Fail(r.kept, "code points reported earlier, or another iterator")
          \cup Fail(Flat(r.gr) = Decoded(r.t), "iterator pieces do not make up the text")
          \cup Fail(r.gr = [i \in 1..Len(r.st) |-> Decoded(r.st[i])], "iterator and stepping differ")
          \cup Fail(r.before <= 0 /\ (\A k \in 1..Len(r.after) : r.after[k] <= 0) /\ r.more = <<FALSE, FALSE, FALSE>>, "before the start or after the end")
     [] Q = "C17" ->
          LET want == Pieces(r.t, ClusterLensOf(r.t)) IN
          Fail(r.st = want, <<"pieces must be", want>>)
          \cup Fail(r.gr = [i \in 1..Len(want) |-> Decoded(want[i])], "iterator pieces")
     [] Q = "C23" ->
          (* widths of the pieces as they are *)
          Fail(Len(r.sw) = Len(r.st) /\ \A i \in 1..Len(r.st) : r.st[i] = <<>> \/ r.sw[i] = ClusterStepWidth(r.st[i]),
               <<"widths must be", [i \in 1..Len(r.st) |-> IF r.st[i] = <<>> THEN -1 ELSE ClusterStepWidth(r.st[i])]>>)

(* Class sequences: r.reps[c + 1] is the representative of class c. *)
RECURSIVE ClassSeq(_, _)
ClassSeq(n, idx) == IF n = 0 THEN <<>> ELSE Append(ClassSeq(n - 1, idx \div 15), idx % 15)
(* lengths packed as a number: boundary after position i <=> bit i - 1 *)
Bits(ls) == LET ends == FoldLeft(LAMBDA a, l : [pos |-> a.pos + l, v |-> a.v + 2^(a.pos + l - 1)], [pos |-> 0, v |-> 0], ls) IN ends.v
BadCls(r) ==
   {ToString(<<ClassSeq(r.n, r.f + i - 1), Lengths(ClassSeq(r.n, r.f + i - 1))>>) :
      i \in {j \in 1..r.c : r.bits[j] # Bits(Lengths(ClassSeq(r.n, r.f + j - 1)))}}
   \cup Fail(Len(r.bits) = r.c, "count")
   \cup Fail(\A c \in 0..14 : Gcb(r.reps[c + 1]) = c, "representatives")

(* Widths of the clusters as they are, packed into a number. *)
EndAfter(bits, i) == (bits \div 2^(i - 1)) % 2 = 1
PackedWidths(t, bits) ==
   FoldLeftDomain(LAMBDA a, i :
      IF EndAfter(bits, i) THEN [from |-> i + 1, v |-> ((a.v * 101) + ClusterStepWidth(SubSeq(t, a.from, i))) % 10000019] ELSE a,
      [from |-> 1, v |-> 0], t).v
BadClsWidths(r) ==
   LET T(j) == LET cs == ClassSeq(r.n, r.f + j - 1) IN [k \in 1..r.n |-> r.reps[cs[k] + 1]] IN
   {ToString(<<"widths", T(i)>>) : i \in {j \in 1..r.c : r.bits[j] >= 0 /\ r.ws[j] # PackedWidths(T(j), r.bits[j])}}
   \cup Fail(Len(r.ws) = r.c, "count")

(***************************************************************************)
(* Every code point.  Contexts are given with 0 standing for the code      *)
(* point; the signature of a code point is, per context, the boundary bits *)
(* (C17) or the width of the first cluster (C23).                          *)
(***************************************************************************)
Surrogate(x) == x >= 55296 /\ x <= 57343
Starts ==
   LET S == {GcbRuns[i][1] : i \in 1..Len(GcbRuns)}
            \cup UNION {{Wide14Runs[i][1], Wide14Runs[i][2] + 1} : i \in 1..Len(Wide14Runs)}
            \cup UNION {{EmojiPresRuns[i][1], EmojiPresRuns[i][2] + 1} : i \in 1..Len(EmojiPresRuns)}
            \cup {VS15, VS15 + 1, VS16, VS16 + 1, TwoEm, TwoEm + 1, ThreeEm, ThreeEm + 1, 55296, 57344}
   IN SortSeq(SetToSeq({x \in S : x <= MaxCP}), LAMBDA a, b : a < b)
Segments == Starts
Subst(ctx, x) == [i \in 1..Len(ctx) |-> IF ctx[i] = 0 THEN x ELSE ctx[i]]
SigOf(ctxs, x, kind) ==
   [k \in 1..Len(ctxs) |->
      LET t == Subst(ctxs[k], x) ls == ClusterLensOf(t) IN
      IF kind = "b" THEN Bits(ls) ELSE ClusterStepWidth(SubSeq(t, 1, ls[1]))]
(* maximal runs <<first, last, signature>> of the specification *)
ExpectedRuns(ctxs, kind) ==
   FoldLeftDomain(LAMBDA a, i :
      LET x == Segments[i] last == IF i = Len(Segments) THEN MaxCP ELSE Segments[i + 1] - 1 n == Len(a) IN
      IF Surrogate(x) THEN a
      ELSE LET s == SigOf(ctxs, x, kind) IN
           IF n > 0 /\ a[n][3] = s /\ a[n][2] = x - 1 THEN [a EXCEPT ![n] = <<a[n][1], last, s>>]
           ELSE Append(a, <<x, last, s>>), <<>>, Segments)
BadRuns(r) ==
   LET want == ExpectedRuns(r.ctxs, r.kind)
       n == MinOf(Len(want), Len(r.runs))
       d == {i \in 1..n : r.runs[i] # want[i]}
   IN IF want = r.runs THEN {}
      ELSE IF d = {} THEN {"number of runs"}
      ELSE LET i == CHOOSE k \in d : \A j \in d : k <= j IN {<<"run must be", want[i], "is", r.runs[i]>>}

BadGraph(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE CASE r.k = "seg" -> IF P = "ALL" THEN BadSeg(r, "C16") \cup BadSeg(r, "C17") \cup BadSeg(r, "C23") ELSE BadSeg(r, P)
          [] r.k = "cls" -> IF P = "C17" THEN BadCls(r) ELSE IF P = "C23" THEN BadClsWidths(r) ELSE {}
          [] r.k = "runs" -> IF (r.kind = "b" /\ P = "C17") \/ (r.kind = "w" /\ P = "C23") THEN BadRuns(r) ELSE {}
=============================================================================
