----------------------------- MODULE Val_Merge -----------------------------
(* Recorded merges against Merge (C08 .. C15).                             *)
EXTENDS VisualWidth, Merge, ValCore
VWM(t, cfg) == VW(t, cfg)
In(r) == [dir |-> r.dir, als |-> r.als, cw |-> r.cw, max |-> r.mx, sep |-> r.sep, compact |-> r.compact,
          items |-> r.items, cfg |-> [ea |-> r.ea, strict |-> TRUE]]
HasNL(t) == \E k \in 1..Len(t) : t[k] = NewLn
(* Lines can be told apart, and cells be found in them. *)
Readable(r) == /\ ~HasNL(r.sep)
               /\ \A i \in 1..Len(r.items) : \A c \in 1..Len(r.als) : ~HasNL(r.items[i][c])
               /\ \A c \in 1..Len(r.als) : r.als[c] # "X"
FaultFree(r) == r.failbytes < 0 /\ r.failcalls < 0
P == IOEnv.PROP
Fail(ok, why) == IF ok THEN {} ELSE {ToString(why)}
OfLines(r, Pred(_, _)) ==
   LET ls == Lines(r.out) IN
   IF ls.rest # <<>> THEN {"last line has no end"} ELSE Fail(Pred(In(r), ls.lines), "lines")
ValidText(t) == \A k \in 1..Len(t) : t[k] >= 0

BadFault(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE IF r.hit THEN Fail(r.own, "failure not reported") \cup Fail(r.after = 0, "written after the failure")
                      \cup Fail(IsPrefix(r.outb, r.refb), "not a prefix")
   ELSE Fail(FaultFree(r) \/ r.outb = r.refb, "incomplete")

(* Extreme requests: only how they ended (C13). *)
BadExt(r) == IF r.o # "ok" THEN {ToString(<<r.o, r.at>>)} ELSE {r.res[k] : k \in 1..Len(r.res)}

(* Very many items: item i is its number and some x. *)
BigIn(r) == [dir |-> r.dir, als |-> <<r.al>>, cw |-> r.cw, max |-> r.mx, sep |-> r.sep, compact |-> r.compact,
             items |-> TLCEval([i \in 1..r.n |-> <<Dec(i) \o Rep(120, (((i % r.m) * (i % r.m)) % r.m) + (IF i % r.q = r.p THEN r.x ELSE 0))>>]), cfg |-> [ea |-> r.ea, strict |-> TRUE]]
BadBig(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE IF r.rest # <<>> THEN {"last line has no end"}
   ELSE LET in == BigIn(r) ws == TLCEval(CellWidths(in)) IN
        CASE P = "C08" -> Fail(r.dir = "V" \/ ItemsInOrder(in, r.lines), "lines")
          [] P = "C09" -> Fail(r.dir = "H" \/ ItemsInOrder(in, r.lines), "lines")
          [] P = "C10" -> Fail(WithinRoom(in, r.lines), "lines")
          [] P = "C11" -> Fail(Grid(in, ws, r.lines), "lines")
          [] P = "C12" -> Fail(Packed(in, ws, r.lines), "lines")
          [] P = "C15" -> LET lay == Layout(in, ws) IN
                          Fail(\/ r.lines = Render(in, ws, lay)
                               \/ \E g \in 1..(NItems(in) + 1) : Len(r.lines) = LineCount(in, g) /\ \E tt \in BOOLEAN :
                                     r.lines = Render(in, ws, [g |-> g, tight |-> tt]), "bytes") \cup Fail(r.same, "items changed")
          [] OTHER -> {}

BadMerge(r) ==
   IF "k" \in DOMAIN r THEN IF r.k = "big" THEN BadBig(r) ELSE BadExt(r)
   ELSE IF P = "C14" THEN BadFault(r)
   ELSE IF r.o # "ok" THEN {r.o}
   ELSE IF P \in {"C08", "C09"} THEN
        IF (r.dir = "H") # (P = "C08") \/ ~Readable(r) THEN {} ELSE OfLines(r, ItemsInOrder)
   ELSE IF P = "C10" THEN
        IF ~Readable(r) \/ ~ValidText(r.sep) \/ ~Covered(In(r), CellWidths(In(r))) THEN {} ELSE OfLines(r, WithinRoom)
   ELSE IF P = "C11" THEN
        LET in == In(r) ws == CellWidths(in) P11(i, ls) == Grid(i, ws, ls) IN
        IF ~Readable(r) \/ ~Covered(in, ws) THEN {} ELSE OfLines(r, P11)
   ELSE IF P = "C12" THEN
        LET in == In(r) ws == CellWidths(in) P12(i, ls) == Packed(i, ws, ls) IN
        IF ~Readable(r) THEN {} ELSE OfLines(r, P12)
   ELSE IF P = "C13" THEN {}
   ELSE IF P = "C15" THEN
        LET in == In(r) ws == CellWidths(in) lay == Layout(in, ws) IN
        Fail(r.out = Output(Render(in, ws, lay)) \/ Exact(in, ws, r.out), "bytes") \cup Fail(r.same, "items changed")
   ELSE IF P = "ALL" THEN
        LET in == In(r) ws == CellWidths(in) IN
        Fail(r.out = Output(Render(in, ws, Layout(in, ws))), "bytes") \cup Fail(r.same, "items changed") \cup Fail(r.cw = r.cwafter, "widths")
   ELSE {"no such property"}
=============================================================================
