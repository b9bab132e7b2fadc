----------------------------- MODULE Val_Hist -----------------------------
(* Widths observed for a text over a long history (C02), and the memory    *)
(* kept after one (C25).                                                   *)
EXTENDS VisualWidth, ValCore
Cfg(r) == [ea |-> r.ea, strict |-> TRUE]
RepText(t, n) == IF n = 1 THEN t ELSE LET k == Len(t) IN [i \in 1..(k * n) |-> t[((i - 1) % k) + 1]]
BadHistory(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE LET w == VW(RepText(r.t, r.r), Cfg(r)) IN
        IF r.ws = <<w>> THEN {} ELSE {<<"the only width must be", w>>}
(* Room for 12500 texts (in KB; an entry has a text and its bookkeeping), and what a process needs anyway. *)
BadMemory(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE LET bound == (25 * (r.bytes + 300)) \div 2 + 4096 IN
        IF r.live <= bound THEN {} ELSE {<<"at most KB", bound>>}
=============================================================================
