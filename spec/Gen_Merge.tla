----------------------------- MODULE Gen_Merge -----------------------------
(* Every request of the small scope, as a case for the driver.             *)
EXTENDS MC_Merge, Json
Case == [dir |-> in.dir, als |-> in.als, names |-> [c \in 1..NCols(in) |-> "c" \o ToString(c)],
         set |-> in.cw, fmt |-> TRUE, items |-> in.items, max |-> ToString(in.max), sep |-> in.sep,
         compact |-> in.compact, failbytes |-> -1, failcalls |-> -1, errkind |-> ""]
GenNext == /\ pc = "plan" /\ PrintT(ToJson(Case)) /\ pc' = "done"
           /\ UNCHANGED <<in, g, tight, line, out, failed>>
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
