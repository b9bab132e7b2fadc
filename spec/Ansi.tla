-------------------------------- MODULE Ansi --------------------------------
(***************************************************************************)
(* ANSI escape sequences inside a text:                                    *)
(*   introducer (ESC or U+009B), any of [ ( ) # ; ?, optionally parameters *)
(*   d{1,4}(;d{0,4})*, then one final character.  Digits are themselves    *)
(*   final characters, so an unterminated sequence gives back as little as *)
(*   possible (greedy, leftmost-first).  The scanner is the backtracking   *)
(*   recogniser for exactly this grammar.                                  *)
(***************************************************************************)
EXTENDS Text

Intro  == {27, 155}
Lead   == {91, 40, 41, 35, 59, 63}                       \* [ ( ) # ; ?
Digit  == 48..57
Final  == Digit \cup (65..79) \cup {82, 90, 99} \cup (102..110) \cup {113, 114, 121, 61, 62, 60}
                                                         \* 0-9 A-O R Z c f-n q r y = > <
Semi   == 59

At(t, i, S) == i <= Len(t) /\ t[i] \in S

(* Number of consecutive characters of S from position i, at most max. *)
RECURSIVE RunLen(_, _, _, _)
RunLen(t, i, S, max) == IF max = 0 \/ ~At(t, i, S) THEN 0 ELSE 1 + RunLen(t, i + 1, S, max - 1)

FinalAt(t, i) == IF At(t, i, Final) THEN i ELSE 0

(* (;d{0,4})* then a final character; 0 if there is no match. *)
RECURSIVE Params(_, _), SemiTry(_, _, _)
SemiTry(t, i, k) == LET e == Params(t, i + 1 + k) IN
                    IF e > 0 THEN e ELSE IF k = 0 THEN 0 ELSE SemiTry(t, i, k - 1)
Params(t, i) == IF At(t, i, {Semi})
                THEN LET e == SemiTry(t, i, RunLen(t, i + 1, Digit, 4)) IN
                     IF e > 0 THEN e ELSE FinalAt(t, i)
                ELSE FinalAt(t, i)

RECURSIVE FirstTry(_, _, _)
FirstTry(t, i, k) == IF k = 0 THEN 0
                     ELSE LET e == Params(t, i + k) IN IF e > 0 THEN e ELSE FirstTry(t, i, k - 1)

AfterLead(t, i) == LET e == FirstTry(t, i, RunLen(t, i, Digit, 4)) IN
                   IF e > 0 THEN e ELSE FinalAt(t, i)

RECURSIVE LeadTry(_, _, _)
LeadTry(t, i, k) == LET e == AfterLead(t, i + k) IN
                    IF e > 0 THEN e ELSE IF k = 0 THEN 0 ELSE LeadTry(t, i, k - 1)

(* End of the escape sequence that starts at i; 0 if none does. *)
EscEnd(t, i) == IF At(t, i, Intro) THEN LeadTry(t, i + 1, RunLen(t, i + 1, Lead, Len(t))) ELSE 0

(* Scan left to right; sequences do not overlap. *)
Escapes(t) ==
   (FoldLeftDomain(LAMBDA a, i :
      IF i < a.next \/ t[i] \notin Intro THEN a
      ELSE LET e == EscEnd(t, i) IN
           IF e = 0 THEN a ELSE [next |-> e + 1, out |-> Append(a.out, <<i, e>>)],
      [next |-> 1, out |-> <<>>], t)).out

(* Cells that printing the escape sequences' characters would take: every  *)
(* character but the (zero-width) introducer is one cell wide.             *)
EscCells(t) == LET es == Escapes(t) IN SumSeq([k \in 1..Len(es) |-> es[k][2] - es[k][1]])

(* The text without its escape sequences. *)
Strip(t) == LET es == Escapes(t) n == Len(es) IN
   Flat([k \in 1..(n + 1) |-> SubSeq(t, (IF k = 1 THEN 0 ELSE es[k-1][2]) + 1,
                                        IF k = n + 1 THEN Len(t) ELSE es[k][1] - 1)])
=============================================================================
