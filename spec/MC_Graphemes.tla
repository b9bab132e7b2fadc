---------------------------- MODULE MC_Graphemes ----------------------------
(* Exhaustive: every class sequence up to length N.  The segmenter reads   *)
(* one class per step.                                                     *)
EXTENDS Graphemes, Integers, Sequences
CONSTANT N
VARIABLES s, st, ends     \* input so far, automaton state, cluster ends decided so far
vars == <<s, st, ends>>
Init == s = <<>> /\ st = sStart /\ ends = <<>>
Read(c) == /\ Len(s) < N
           /\ s' = Append(s, c)
           /\ st' = GNext(st, c)
           /\ ends' = IF s = <<>> \/ GJoin(st, c) THEN ends ELSE Append(ends, Len(s))
Next == \E c \in Classes : Read(c)
Spec == Init /\ [][Next]_vars
(* The automaton decides the boundary before the newest class as the rules do. *)
(* (Earlier boundaries were checked when they were the newest.) *)
Agree == Len(s) >= 2 => LET i == Len(s) - 1 IN (\E k \in 1..Len(ends) : ends[k] = i) <=> ~Joined(s, i)
(* Lossless: the pieces are non-empty and make up the input. *)
Partition == \A k \in 1..Len(ends) : ends[k] > (IF k = 1 THEN 0 ELSE ends[k-1]) /\ ends[k] < Len(s)
Tables == Lengths(s) = RuleLengths(s)
(* What was decided never changes when more input arrives (streaming is possible). *)
Stable == [][SubSeq(ends', 1, Len(ends)) = ends]_vars
=============================================================================
