----------------------------- MODULE MC_Cache -----------------------------
(* Threads that measure texts, in every interleaving; while none does, the *)
(* width configuration may be changed.  What is remembered of a text is    *)
(* remembered for the configuration it was measured in.                    *)
EXTENDS WidthCache, FiniteSets, TLC
CONSTANTS Threads, Texts, MaxMeasures, Confs
(* Texts are numbers from 1; the first has width 0, the others' widths depend on the configuration. *)
TrueWidth(t, c) == (t - 1) * c
VARIABLES cache, pc, arg, val, done, conf
vars == <<cache, pc, arg, val, done, conf>>
Key(t) == <<t, conf>>
Init == conf \in Confs /\ cache = <<>> /\ pc = [p \in Threads |-> "idle"] /\ arg = [p \in Threads |-> 0] /\ val = [p \in Threads |-> 0] /\ done = 0
Begin(p) == /\ pc[p] = "idle" /\ done < MaxMeasures
            /\ \E t \in Texts : arg' = [arg EXCEPT ![p] = t]
            /\ pc' = [pc EXCEPT ![p] = "get"] /\ done' = done + 1 /\ UNCHANGED <<cache, val, conf>>
Get(p) == /\ pc[p] = "get"
          /\ cache' = Touch(cache, Key(arg[p]))
          /\ val' = [val EXCEPT ![p] = Found(cache, Key(arg[p]))]
          /\ pc' = [pc EXCEPT ![p] = IF Found(cache, Key(arg[p])) > 0 THEN "answer" ELSE "compute"]
          /\ UNCHANGED <<arg, done, conf>>
Compute(p) == pc[p] = "compute" /\ val' = [val EXCEPT ![p] = TrueWidth(arg[p], conf)] /\ pc' = [pc EXCEPT ![p] = "set"] /\ UNCHANGED <<cache, arg, done, conf>>
Set(p) == pc[p] = "set" /\ cache' = Put(cache, Key(arg[p]), val[p]) /\ pc' = [pc EXCEPT ![p] = "answer"] /\ UNCHANGED <<arg, val, done, conf>>
Answer(p) == pc[p] = "answer" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<cache, arg, val, done, conf>>
Reconfigure == (\A p \in Threads : pc[p] = "idle") /\ conf' \in Confs /\ UNCHANGED <<cache, pc, arg, val, done>>
Next == Reconfigure \/ \E p \in Threads : Begin(p) \/ Get(p) \/ Compute(p) \/ Set(p) \/ Answer(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Threads : WF_vars(Get(p) \/ Compute(p) \/ Set(p) \/ Answer(p))
(* C02, C24: every answer is the text's own width, whatever came before or in between. *)
RightAnswers == \A p \in Threads : pc[p] = "answer" => val[p] = TrueWidth(arg[p], conf)
Coherent == \A i \in 1..Len(cache) : cache[i].v = TrueWidth(cache[i].k[1], cache[i].k[2])
OneEach == \A i, j \in 1..Len(cache) : cache[i].k = cache[j].k => i = j
(* C25 *)
Bounded == Len(cache) <= Cap
Answered == \A p \in Threads : pc[p] = "get" ~> pc[p] = "idle"
=============================================================================
