---------------------------- MODULE MC_Condition ----------------------------
(* All histories of up to MaxOps operations on up to MaxConds conditions.   *)
(* Tables are given an identity here, as they have in memory: a copy shares *)
(* the table it was copied with, and building always takes a new one.       *)
EXTENDS Condition, TLC
CONSTANTS MaxOps, MaxConds
VARIABLES st, heap, ref, ops, touched
vars == <<st, heap, ref, ops, touched>>
(* heap: table contents by identity; ref[i]: identity of condition i's table, 0 none *)
N == Len(st.cs)
Init == \E o \in {Conf(FALSE, TRUE), Conf(TRUE, TRUE)} :
          st = CStart(o) /\ heap = <<>> /\ ref = <<0>> /\ ops = 0 /\ touched = 0
Tick == ops < MaxOps /\ ops' = ops + 1
New    == Tick /\ N < MaxConds /\ ref' = Append(ref, 0) /\ touched' = N + 1 /\ UNCHANGED heap
          /\ (st' = CNewFlags(st) \/ \E o \in Confs : st' = CNew(st, o))
Set    == Tick /\ \E i \in 1..N, o \in Confs : st' = CSet(st, i, o) /\ touched' = i /\ UNCHANGED <<heap, ref>>
Build(i) == heap' = Append(heap, st.cs[i].opt) /\ ref' = [ref EXCEPT ![i] = Len(heap) + 1] /\ touched' = i
Lut    == Tick /\ \E i \in 1..N : st' = CLut(st, i) /\ Build(i)
PkgLut == Tick /\ st' = CPkgLut(st) /\ IF ref[st.def] = 0 THEN Build(st.def) ELSE touched' = st.def /\ UNCHANGED <<heap, ref>>
Copy   == Tick /\ N < MaxConds /\ \E i \in 1..N : st' = CCopy(st, i) /\ ref' = Append(ref, ref[i]) /\ touched' = N + 1 /\ UNCHANGED heap
Assign == Tick /\ \E i, j \in 1..N : st' = CAssign(st, i, j) /\ ref' = [ref EXCEPT ![i] = ref[j]] /\ touched' = i /\ UNCHANGED heap
Flags  == Tick /\ \E o \in Confs : st' = CFlags(st, o) /\ touched' = 0 /\ UNCHANGED <<heap, ref>>
Replace == Tick /\ \E i \in 1..N : st' = CReplace(st, i) /\ touched' = 0 /\ UNCHANGED <<heap, ref>>
Next == New \/ Set \/ Lut \/ PkgLut \/ Copy \/ Assign \/ Flags \/ Replace
Spec == Init /\ [][Next]_vars
(* With fresh tables, sharing is harmless: what memory holds is what the abstract machine says. *)
Refines == \A i \in 1..N : st.cs[i].tab = IF ref[i] = 0 THEN NoTab ELSE heap[ref[i]]
(* C19: an operation affects only the condition it is applied to ... *)
Others == [][\A i \in 1..N : i # touched' => st'.cs[i] = st.cs[i]]_vars
(* ... building changes no width unless options changed since the last build, ... *)
LutSame == [][Lut => \A i \in 1..N : (~Stale(st.cs[i])) => Eff(st'.cs[i]) = Eff(st.cs[i])]_vars
(* ... and afterwards the widths are those of the options. *)
LutFollows == [][Lut => Eff(st'.cs[touched']) = st.cs[touched'].opt]_vars
(* C20: package-level widths change only with the default condition, or when another one becomes it. *)
PackageLevel == [][Eff(Default(st')) # Eff(Default(st)) => touched' = st.def \/ st'.def # st.def]_vars
=============================================================================
