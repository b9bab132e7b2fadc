---------------------------- MODULE Gen_Condition ----------------------------
(* Histories of the condition machine for the driver (TLC's simulator).     *)
EXTENDS Condition, TLC, Json, TLCExt
CONSTANTS D, MaxConds
VARIABLES st, hist
vars == <<st, hist>>
Pick(S) == {RandomElement(S)}
Init == st = CStart(Conf(FALSE, TRUE)) /\ hist = <<>>
Say(op, i, j, o) == hist' = Append(hist, [op |-> op, i |-> i, j |-> j, ea |-> o.ea, strict |-> o.strict])
Step(x, i, j, o) ==
   CASE x = 1 /\ Len(st.cs) < MaxConds        -> st' = CNew(st, o) /\ Say("new", 0, 0, o)
     [] x = 2 /\ Len(st.cs) < MaxConds        -> st' = CNewFlags(st) /\ Say("newflags", 0, 0, o)
     [] x \in {3, 4} /\ Len(st.cs) < MaxConds -> st' = CCopy(st, i) /\ Say("copy", i, 0, o)
     [] x \in {5, 6, 7}                       -> st' = CSet(st, i, o) /\ Say("set", i, 0, o)
     [] x = 8                                 -> st' = CAssign(st, i, j) /\ Say("assign", i, j, o)
     [] x = 9 /\ ~Stale(Default(st))          -> st' = CPkgLut(st) /\ Say("pkglut", 0, 0, o)
     [] x = 10                                -> st' = CFlags(st, o) /\ Say("flags", 0, 0, o)
     [] x = 11                                -> st' = CReplace(st, i) /\ Say("replace", i, 0, o)
     [] OTHER                                 -> st' = CLut(st, i) /\ Say("lut", i, 0, o)
Next == Len(hist) < D /\ \E x \in Pick(1..15), i \in Pick(1..Len(st.cs)), j \in Pick(1..Len(st.cs)), o \in Pick(Confs) : Step(x, i, j, o)
GenSpec == Init /\ [][Next]_vars
Xs == <<97, 12354, 161, 9734, 8596, 127777, 35, 169, 0, 768, 55296, 1114111, 1114110, 1114112, -1, 2147483647>>
Emit == Len(hist) < D \/ PrintT(ToJson([k |-> "hist", xs |-> Xs, full |-> RandomElement(1..4) = 1, ops |-> hist]))
=============================================================================
