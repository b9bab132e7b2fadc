------------------------------ MODULE MC_Merge ------------------------------
(***************************************************************************)
(* The merge as a machine, for every request in a small scope: rows of     *)
(* letters of width 0..MW, up to NI items, up to NC columns, every maximum *)
(* width from -1 to MX, three separators, both directions, compact or not, *)
(* and a writer that may fail at any line.                                 *)
(***************************************************************************)
EXTENDS Merge, FiniteSets
CONSTANTS NI, NC, MW, MX, Seps, Als, Overs
WLen(t, cfg) == Len(t)
SmallSeps == {<<>>, <<124>>, <<124, 124>>}

VARIABLES in, pc, g, tight, line, out, failed
vars == <<in, pc, g, tight, line, out, failed>>

ColW(its, nc) == [c \in 1..nc |-> LET S == {Len(its[i][c]) : i \in 1..Len(its)} IN MaxSet(S \cup {0})]

Init ==
   /\ \E nc \in 0..NC, n \in 0..NI :
      \E ws \in [1..n -> [1..nc -> 0..MW]], als \in [1..nc -> Als], over \in Overs,
         dir \in {"H", "V"}, max \in -1..MX, sep \in Seps, compact \in BOOLEAN :
         LET its == [i \in 1..n |-> [c \in 1..nc |-> Rep(96 + 3 * i + c, ws[i][c])]] IN
         in = [dir |-> dir, als |-> als, items |-> its, max |-> max, sep |-> sep, compact |-> compact,
               cw |-> [c \in 1..nc |-> ColW(its, nc)[c] + over], cfg |-> 0]
   /\ pc = "plan" /\ g = 0 /\ tight = FALSE /\ line = 0 /\ out = <<>> /\ failed = FALSE

WS == CellWidths(in)
Plan == /\ pc = "plan"
        /\ g' = G0(in)
        /\ pc' = IF in.compact THEN "search" ELSE "emit"
        /\ line' = 1
        /\ UNCHANGED <<in, tight, out, failed>>
Widen == /\ pc = "search"
         /\ CanAdd(in, WS, G0(in), g - G0(in))
         /\ g' = g + 1 /\ tight' = TRUE
         /\ UNCHANGED <<in, pc, line, out, failed>>
Stop == /\ pc = "search"
        /\ ~CanAdd(in, WS, G0(in), g - G0(in))
        /\ pc' = "emit"
        /\ UNCHANGED <<in, g, tight, line, out, failed>>
Lay == [g |-> g, tight |-> tight]
Emit == /\ pc = "emit" /\ line <= LineCount(in, g)
        /\ out' = Append(out, RenderLine(in, WS, Lay, GroupWidths(in, WS, Lay), line))
        /\ line' = line + 1
        /\ UNCHANGED <<in, pc, g, tight, failed>>
WriteFails == /\ pc = "emit" /\ line <= LineCount(in, g)
              /\ pc' = "failed" /\ failed' = TRUE
              /\ UNCHANGED <<in, g, tight, line, out>>
Finish == /\ pc = "emit" /\ line > LineCount(in, g)
          /\ pc' = "done"
          /\ UNCHANGED <<in, g, tight, line, out, failed>>
Next == Plan \/ Widen \/ Stop \/ Emit \/ WriteFails \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Plan \/ Widen \/ Stop \/ Emit \/ Finish)

Done == pc = "done"
AllPrintedInOrder == Done => ItemsInOrder(in, out)
StaysWithin       == Done => WithinRoom(in, out)
GridLinesUp       == Done => Grid(in, WS, out)
PackedAsSpecified == Done => Packed(in, WS, out)
ExactBytes        == Done => Exact(in, WS, Output(out))
NothingForNothing == Done /\ NItems(in) = 0 => out = <<>>
PrefixOnFailure   == pc = "failed" => IsPrefix(out, Render(in, WS, Layout(in, WS)))
NoSilentFailure   == Done => ~failed
SearchIsBounded   == g <= MaxOf(G0(in) + 1, NItems(in) + 1)
CompactNeverWorse == pc \in {"emit", "done"} => g >= G0(in)
(* At least as many items per line as plain. *)
Terminates == <>(pc \in {"done", "failed"})
=============================================================================
