------------------------------ MODULE ValCore ------------------------------
(***************************************************************************)
(* Conformance of independent recorded calls: every record of the file     *)
(* named by RECS was produced by the real code; Bad(r) gives the reasons   *)
(* why the specification does not allow it ({} if it does).                *)
(* Records are checked in chunks, one step each, so that TLC's workers     *)
(* share the work.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Bad(_), ChunkSize
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES chunk, bad
NChunks == (Len(Recs) + ChunkSize - 1) \div ChunkSize
Init == chunk \in 1..NChunks /\ bad = {-1}
Range(k) == ((k - 1) * ChunkSize + 1)..(IF k = NChunks THEN Len(Recs) ELSE k * ChunkSize)
Check(i) == LET b == Bad(Recs[i]) IN IF b = {} THEN TRUE ELSE PrintT(<<"VERIF-BAD", i, b>>) /\ FALSE
Next == bad = {-1} /\ bad' = {i \in Range(chunk) : ~Check(i)} /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, bad>>
Conforms == bad \in {{-1}, {}}
=============================================================================
