----------------------------- MODULE Val_Table -----------------------------
(***************************************************************************)
(* Recorded histories of operations on specifications and tables, one      *)
(* record per history.  After every operation the whole abstract state is  *)
(* logged (all columns, all widths of all tables).  Every step is checked  *)
(* against the operator of Table for that operation, from the state logged *)
(* before it; the state before the first is Empty.                         *)
(***************************************************************************)
EXTENDS VisualWidth, Table, ValCore
VWT(t, cfg) == VW(t, cfg)
M == INSTANCE Merge WITH W <- VWT
P == IOEnv.PROP
(* The width configuration after event l: as the process started, until the default condition is changed. *)
CfgAt(r, l) == FoldLeft(LAMBDA a, e : IF e.op = "conf" THEN [ea |-> e.ea, strict |-> e.strict] ELSE a,
                        [ea |-> r.ea, strict |-> TRUE], SubSeq(r.evs, 1, l))
Fail(ok, why) == IF ok THEN {} ELSE {ToString(why)}

Reads == {"set", "map", "conf", "basic", "align", "header", "twidth", "merge"}
(* The columns and width maps as their callers last set them, after event l. *)
Defs(r, l) == FoldLeft(LAMBDA a, e : CASE e.op = "add" /\ e.old = 0 -> Append(a, e.col)
                                       [] e.op = "set" -> [a EXCEPT ![e.old] = [e.col EXCEPT !.name = a[e.old].name]]
                                       [] OTHER -> a, <<>>, SubSeq(r.evs, 1, l))
(* The abstract state logged after event l (0: before all). *)
StateAt(r, l, defs) ==
   IF l = 0 THEN Empty
   ELSE LET p == r.evs[l].post IN
        [cols |-> defs, specs |-> [s \in 1..Len(p.specs) |-> p.specs[s].ids], tabs |-> p.tabs, maps |-> p.maps]
Known(r, l, defs) == l = 0 \/ \A s \in 1..Len(r.evs[l].post.specs) :
   LET p == r.evs[l].post.specs[s] IN \A i \in 1..Len(p.ids) : p.ids[i] \in 1..Len(defs)

(* What the operation must lead to (widths of failing rows: see FailedWidths). *)
After(st, e, ws, K) ==
   CASE e.op = "spec"   -> NewSpec(st)
     [] e.op = "table"  -> NewTable(st, e.s, K)
     [] e.op = "add"    -> IF e.old = 0 THEN AddNew(st, e.s, e.col) ELSE AddColumn(st, e.s, e.old)
     [] e.op = "set"    -> SetColumn(st, e.old, e.col)
     [] e.op = "map"    -> SetMap(IF e.mp > Len(st.maps) THEN NewMap(st, K) ELSE st, e.mp, e.ups)
     [] e.op = "update" -> IF e.mp = 0 THEN UpdateWidth(st, e.t, e.ups) ELSE UpdateFrom(st, e.t, e.mp)
     [] e.op = "format" -> Format(st, e.t, ws)
     [] OTHER           -> st

FirstFail(e) == FoldLeftDomain(LAMBDA a, i : IF a = 0 /\ e.fail[i] # "" THEN i ELSE a, 0, e.fail)

(* C04: the widths of the table worked on *)
BadWidths(st, post, e, ws, exp) ==
   LET t == IF e.op = "table" THEN Len(exp.tabs) ELSE e.t IN
   IF t = 0 THEN {}
   ELSE IF e.op = "format" /\ FirstFail(e) > 0
        THEN Fail(FailedWidths(st.tabs[t].w, Cols(st, t), ws, FirstFail(e), post.tabs[t].w), "widths after a failed row")
        ELSE Fail(post.tabs[t].w = exp.tabs[t].w, <<"widths must be", exp.tabs[t].w>>)
(* C05 *)
BadAlignRow(st, e, cfg) ==
   IF e.op # "align" THEN {}
   ELSE IF Len(e.row) # Len(Cols(st, e.t)) THEN Fail(e.own # 0 /\ e.res = <<>>, "wrong number of cells accepted")
   ELSE Fail(e.own = 0 /\ e.res = AlignRow(st, e.t, e.row, cfg), "aligned row")
(* C06 *)
BadHeader(st, e, cfg) == IF e.op # "header" THEN {}
   ELSE LET h == Header(st, e.t, e.sep, cfg) IN Fail(e.txt = h, <<"header must be", h>>)
(* C07 *)
Panics(e) == \E i \in 1..Len(e.fail) : e.fail[i] \in {"p", "q"}      \* in a getter, and recovered by the caller
BadRow(st, e) ==
   LET f == FirstFail(e) IN
   Fail(e.kept, "a row returned earlier has changed") \cup
   CASE e.op \in {"format", "basic"} /\ Panics(e) -> {}
     [] e.op = "format" -> IF f > 0 THEN Fail(e.own = f /\ e.res = <<>>, "failing row")
                           ELSE Fail(e.own = 0 /\ e.res = e.row, "row")
     [] e.op = "basic"  -> IF f > 0 THEN Fail(e.own = f /\ e.txt = <<>>, "failing basic row")
                           ELSE Fail(e.own = 0 /\ e.txt = Join(e.row, e.sep), "basic row")
     [] OTHER -> {}
(* C26 *)
BadRegistry(st, post, e, exp, K) ==
   (IF e.op = "twidth" THEN Fail(e.num = TableWidth(st, e.t, e.m), "table width") ELSE {})
   \cup UNION {LET p == post.specs[s] IN
        Fail(p.ids = exp.specs[s], "columns") \cup Fail(p.count = Len(exp.specs[s]), "column count")
        \cup Fail(\A n \in 1..K : p.by[n] = ByName(exp, s, n) /\ p.has[n] = HasColumn(exp, s, n), "lookup by name")
        : s \in 1..MinOf(Len(exp.specs), Len(post.specs))}
(* C27 *)
BadIsolation(st, post, e, exp) ==
   Fail(Len(post.specs) = Len(exp.specs) /\ Len(post.tabs) = Len(exp.tabs), "number of tables or specifications")
   \cup Fail(\A t \in 1..MinOf(Len(post.tabs), Len(exp.tabs)) : post.tabs[t].spec = exp.tabs[t].spec, "specification of a table")
   \cup Fail(\A t \in 1..Len(st.tabs) : (t # e.t \/ e.op \in Reads) => post.tabs[t].w = st.tabs[t].w, "widths of another table, or by reading")
   \cup Fail(\A s \in 1..Len(st.specs) : (s # e.s \/ e.op # "add") => post.specs[s].ids = st.specs[s], "columns of another specification, or by reading")
   \cup Fail(e.op = "table" => \A k \in 1..Len(post.tabs[Len(post.tabs)].w) : post.tabs[Len(post.tabs)].w[k] = 0, "new table has widths")
   \cup Fail(e.op = "add" => post.specs[e.s].ids = exp.specs[e.s], "columns after adding")
   \cup Fail(post.maps = exp.maps, "width maps of the caller")
   \cup Fail(post.changed = <<>>, "columns of the caller")
   \cup Fail(e.again, "different when repeated")
   \cup (IF e.op # "merge" THEN {} ELSE
         LET cs == Cols(st, e.t)
             in == [dir |-> e.dir, als |-> [i \in 1..Len(cs) |-> cs[i].al], cw |-> ColW(st, e.t), max |-> e.max,
                    sep |-> e.sep, compact |-> e.compact, items |-> e.items, cfg |-> e.cfg]
             ws == M!CellWidths(in)
         IN Fail(e.txt = M!Output(M!Render(in, ws, M!Layout(in, ws))), "merge in a history"))

BadEvent(r, l) ==
   LET e == r.evs[l] cfg == CfgAt(r, l)
       defs0 == Defs(r, l - 1) defs == Defs(r, l)
   IN IF ~Known(r, l - 1, defs0) THEN IF P \in {"C26", "C27", "ALL"} THEN {"unknown column"} ELSE {}
      ELSE
      LET st == StateAt(r, l - 1, defs0)
          ws == IF e.op = "format" THEN [i \in 1..Len(e.row) |-> VW(e.row[i], cfg)] ELSE <<>>
          exp == After(st, e, ws, r.k)
          post == e.post
          f == IF e.o # "ok" THEN {e.o}
               ELSE CASE P = "C04" -> BadWidths(st, post, e, ws, exp)
                      [] P = "C05" -> BadAlignRow(st, e, cfg)
                      [] P = "C06" -> BadHeader(st, e, cfg)
                      [] P = "C07" -> BadRow(st, e)
                      [] P = "C26" -> BadRegistry(st, post, e, exp, r.k)
                      [] P = "C27" -> BadIsolation(st, post, e @@ [cfg |-> cfg], exp)
                      [] P = "ALL" -> BadWidths(st, post, e, ws, exp) \cup BadAlignRow(st, e, cfg) \cup BadHeader(st, e, cfg) \cup BadRow(st, e)
                                      \cup BadRegistry(st, post, e, exp, r.k) \cup BadIsolation(st, post, e @@ [cfg |-> cfg], exp)
      IN {<<"event", l, e.op, x>> : x \in f}

BadTable(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE UNION {BadEvent(r, l) : l \in 1..Len(r.evs)}
=============================================================================
