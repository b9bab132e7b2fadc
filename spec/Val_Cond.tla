------------------------------ MODULE Val_Cond ------------------------------
(* Recorded code point widths (C18), condition histories (C19) and string   *)
(* widths (C20).                                                            *)
EXTENDS RuneWidth, Condition, ValCore
Fail(ok, why) == IF ok THEN {} ELSE {ToString(why)}
NT == Conf(FALSE, TRUE)  NF == Conf(FALSE, FALSE)  ET == Conf(TRUE, TRUE)  EF == Conf(TRUE, FALSE)
RunsNT == WidthRuns(NT)  RunsNF == WidthRuns(NF)  RunsET == WidthRuns(ET)  RunsEF == WidthRuns(EF)
RunsFor(cfg) == CASE cfg = NT -> RunsNT [] cfg = NF -> RunsNF [] cfg = ET -> RunsET [] cfg = EF -> RunsEF
(* Runs for several configurations at once: <<first, last, widths>>. *)
Joint(cfgs) ==
   FoldLeft(LAMBDA a, r :
      LET w == [k \in 1..Len(cfgs) |-> ClassWidth(r[3], cfgs[k])] n == Len(a) IN
      IF n > 0 /\ a[n][3] = w THEN [a EXCEPT ![n] = <<a[n][1], r[2], w>>]
      ELSE Append(a, <<r[1], r[2], w>>), <<>>, WClassRuns)
Diff(want, got) ==
   IF want = got THEN {}
   ELSE LET n == MinOf(Len(want), Len(got)) d == {i \in 1..n : want[i] # got[i]} IN
        IF d = {} THEN {ToString("number of runs")}
        ELSE LET i == CHOOSE k \in d : \A j \in d : k <= j IN {ToString(<<"run must be", want[i], "is", got[i]>>)}
CfgsOf(r) == [k \in 1..Len(r.confs) |-> Conf(r.confs[k][1], r.confs[k][2])]

(* Histories: the abstract machine runs along with the log. *)
HistStart(r) == CStart(Conf(r.ea, TRUE))
Do(cs, o) ==
   CASE o.op \in {"new", "newcond"} -> CNew(cs, Conf(o.ea, o.strict))
     [] o.op = "set"    -> CSet(cs, o.i, Conf(o.ea, o.strict))
     [] o.op = "lut"    -> CLut(cs, o.i)
     [] o.op = "copy"   -> CCopy(cs, o.i)
     [] o.op = "assign" -> CAssign(cs, o.i, o.j)
     [] o.op = "pkglut" -> CPkgLut(cs)
     [] o.op = "newflags" -> CNewFlags(cs)
     [] o.op = "flags"  -> CFlags(cs, Conf(o.ea, o.strict))
     [] o.op = "replace" -> CReplace(cs, o.i)
(* Texts in a history (C20): widths follow the same configuration. *)
BadHistTexts(r) ==
   LET sw == TLCEval([cfg \in Confs |-> [k \in 1..Len(r.ts) |-> StringWidth(r.ts[k], cfg)]])
       walk == FoldLeftDomain(LAMBDA a, l :
                  LET cs == Do(a.cs, r.ops[l]) IN
                  [cs |-> cs,
                   bad |-> a.bad
                     \cup Fail(r.ops[l].sw = [i \in 1..Len(cs.cs) |-> sw[Eff(cs.cs[i])]], <<"operation", l, "widths of texts">>)
                     \cup Fail(r.priv \/ r.ops[l].pw = sw[Eff(Default(cs))], <<"operation", l, "package level widths">>)],
                  [cs |-> HistStart(r), bad |-> {}], r.ops)
   IN walk.bad
(* Texts in tables (C02, C22): column widths and alignment follow the default condition. *)
BadHistColumns(r) ==
   LET sw == TLCEval([cfg \in Confs |-> [k \in 1..Len(r.ts) |-> StringWidth(r.ts[k], cfg)]])
       walk == FoldLeftDomain(LAMBDA a, l :
                  LET cs == Do(a.cs, r.ops[l]) w == sw[Eff(Default(cs))] IN
                  [cs |-> cs,
                   bad |-> a.bad
                     \cup Fail(r.ops[l].tw = w, <<"operation", l, "column widths must be", w>>)
                     \cup Fail(r.ops[l].last = 0 \/ r.ops[l].lastw = w[r.ops[l].last], <<"operation", l, "first measured after it">>)
                     \cup Fail(r.ops[l].aw = w, <<"operation", l, "aligned widths must be", w>>)],
                  [cs |-> HistStart(r), bad |-> {}], r.ops)
   IN walk.bad
BadHist(r) ==
   LET start == HistStart(r)
       walk == FoldLeftDomain(LAMBDA a, l :
                  LET cs == Do(a.cs, r.ops[l]) IN
                  [cs |-> cs,
                   bad |-> a.bad \cup
                     (IF Len(r.ops[l].w) # Len(cs.cs) THEN {"number of conditions"}
                      ELSE UNION {LET want == [k \in 1..Len(r.xs) |-> WidthOf(r.xs[k], Eff(cs.cs[i]))] IN
                            Fail(r.ops[l].w[i] = want, <<"operation", l, "condition", i, "configuration", Eff(cs.cs[i]), "widths must be", want>>)
                            : i \in 1..Len(cs.cs)})],
                  [cs |-> start, bad |-> {}], r.ops)
   IN walk.bad \cup
      (IF ~r.full THEN {}
       ELSE UNION {LET want == RunsFor(Eff(walk.cs.cs[i])) IN
                   Diff([k \in 1..Len(want) |-> <<want[k][1], want[k][2], <<want[k][3]>>>>], r.fin[i]) : i \in 1..Len(walk.cs.cs)})

TextAt(r, j) == LET RECURSIVE E(_, _)
                    E(n, idx) == IF n = 0 THEN <<>> ELSE Append(E(n - 1, idx \div Len(r.t)), r.t[(idx % Len(r.t)) + 1])
                IN IF r.k = "swenum" THEN E(r.n, r.f + j - 1)
                   ELSE r.p \o [i \in 1..(Len(r.t) * r.n) |-> r.t[((i - 1) % Len(r.t)) + 1]] \o r.q
Widths9(t, ea) == LET a == StringWidth(t, NT) b == StringWidth(t, NF) c == StringWidth(t, ET) d == StringWidth(t, EF)
                  IN <<a, a, b, b, c, c, d, d, IF ea THEN c ELSE a>>
BadSW(r) == Fail(Len(r.ws) = (IF r.k = "swenum" THEN r.c ELSE 1), "count")
            \cup {ToString(<<TextAt(r, j), "widths must be", Widths9(TextAt(r, j), r.ea)>>) :
                    j \in {i \in 1..Len(r.ws) : r.ws[i] # Widths9(TextAt(r, i), r.ea)}}

BadCond(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE CASE r.k = "runs" -> Diff(Joint(CfgsOf(r)), r.runs)
          [] r.k = "outs" -> {ToString(<<r.xs[i], "widths", r.ws[i]>>) :
                                i \in {j \in 1..Len(r.xs) : \E k \in 1..Len(r.ws[j]) : r.ws[j][k] # WidthOf(r.xs[j], CfgsOf(r)[k])}}
          [] r.k = "hist" -> IF IOEnv.PROP = "C20" THEN BadHistTexts(r) ELSE IF IOEnv.PROP \in {"C02", "C22"} THEN BadHistColumns(r) ELSE BadHist(r)
          [] OTHER -> BadSW(r)
=============================================================================
