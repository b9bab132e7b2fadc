---------------------------- MODULE WidthCache ----------------------------
(***************************************************************************)
(* The width memory shared by everything that measures: texts (with the    *)
(* configuration they were measured in) and their widths, least            *)
(* recently used first, at most Cap of them.  Get and Set                  *)
(* are atomic (the cache is synchronised); measuring is not: between a     *)
(* miss and the Set that follows, others may do anything.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Cap
Keys(c) == [i \in 1..Len(c) |-> c[i].k]
Holds(c, k) == \E i \in 1..Len(c) : c[i].k = k
Index(c, k) == CHOOSE i \in 1..Len(c) : c[i].k = k
Without(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))
Touch(c, k) == IF Holds(c, k) THEN LET i == Index(c, k) IN Append(Without(c, i), c[i]) ELSE c
Found(c, k) == IF Holds(c, k) THEN c[Index(c, k)].v ELSE 0
(* Width 0 is not told apart from a miss: such texts are measured again. *)
Put(c, k, v) ==
   IF Holds(c, k) THEN Append(Without(c, Index(c, k)), [k |-> k, v |-> v])
   ELSE Append(IF Len(c) >= Cap THEN Tail(c) ELSE c, [k |-> k, v |-> v])
=============================================================================
