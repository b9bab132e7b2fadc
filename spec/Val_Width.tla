----------------------------- MODULE Val_Width -----------------------------
(* Recorded measurements (C01) and alignments (C03) against VisualWidth.   *)
EXTENDS VisualWidth, ValCore
Cfg(r) == [ea |-> r.ea, strict |-> TRUE]
RECURSIVE EnumText(_, _, _)
EnumText(alpha, n, idx) == IF n = 0 THEN <<>>
   ELSE Append(EnumText(alpha, n - 1, idx \div Len(alpha)), alpha[(idx % Len(alpha)) + 1])
RepText(t, n) == LET k == Len(t) IN [i \in 1..(k * n) |-> t[((i - 1) % k) + 1]]
BadWidth(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE CASE r.k = "one" -> LET w == VW(r.t, Cfg(r)) IN IF r.w = <<w>> THEN {} ELSE {<<"width must be", w>>}
          [] r.k = "rep" -> LET w == VW(r.p \o RepText(r.t, r.n) \o r.q, Cfg(r)) IN IF r.w = <<w>> THEN {} ELSE {<<"width must be", w>>}
          [] r.k = "enum" -> IF Len(r.w) # r.c THEN {"count"}
                ELSE {<<EnumText(r.t, r.n, r.f + i - 1), VW(EnumText(r.t, r.n, r.f + i - 1), Cfg(r))>> :
                        i \in {j \in 1..r.c : r.w[j] # VW(EnumText(r.t, r.n, r.f + j - 1), Cfg(r))}}
BadAlign(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE LET o == Align(r.al, r.t, r.w, Cfg(r)) IN (IF r.out = o THEN {} ELSE {<<"result must be", o>>}) \cup (IF r.kept THEN {} ELSE {"a result changed later"})
=============================================================================
