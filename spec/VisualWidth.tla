---------------------------- MODULE VisualWidth ----------------------------
(* Terminal cells a cell's text occupies: grapheme-wise, escape sequences  *)
(* are invisible, saturating at 65535.                                     *)
EXTENDS RuneWidth, Ansi

MaxWidth == 65535
VW(t, cfg) == MinOf(MaxWidth, StringWidth(t, cfg) - EscCells(t))

(* Alignment: never truncates; pads with exactly the missing cells. *)
Align(al, t, w, cfg) ==
   LET n == w - VW(t, cfg) IN
   IF n <= 0 THEN t
   ELSE CASE al = "L" -> t \o Spaces(n)
          [] al = "R" -> Spaces(n) \o t
          [] al = "C" -> Spaces(n - n \div 2) \o t \o Spaces(n \div 2)
=============================================================================
