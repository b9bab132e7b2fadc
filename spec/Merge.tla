------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Printing many narrow rows side by side.                                 *)
(*                                                                         *)
(* A request is a record                                                   *)
(*   dir "H" or "V"; als one alignment per column ("L" "R" "C", "N" none,  *)
(*   "X" or "Y" a caller's function); cw the table's width per column; items a    *)
(*   sequence of rows of cells; max; sep; compact; cfg width configuration.*)
(* Requests are answered in three phases, see MC_Merge for the machine:    *)
(*   plan:   how many groups fit with the table's widths (G0)              *)
(*   search: if compact, one group more at a time (Useful, Fits)           *)
(*   emit:   one line per step (RenderLine)                                *)
(***************************************************************************)
EXTENDS Text
CONSTANT W(_, _)                       \* width of a text in a configuration

MergeMax == 65535
Inner    == 1                          \* one space between the columns of a row
InnerSep == <<Space>>

NCols(in)  == Len(in.als)
NItems(in) == Len(in.items)
Margin(in) == ByteLen(in.sep)
Room(in)   == MinOf(in.max, MergeMax)

Ceil(a, b) == (a + b - 1) \div b

TableWidthOf(cw, margin) == IF cw = <<>> THEN 0
                            ELSE MinOf(MergeMax, SumSeq(cw) + (Len(cw) - 1) * margin)

(* Widths of all cells: computed once per request. *)
CellWidths(in) == [i \in 1..NItems(in) |-> [c \in 1..NCols(in) |-> W(in.items[i][c], in.cfg)]]

(* Groups that fit side by side with the table's own column widths. *)
G0(in) == LET gw == TableWidthOf(in.cw, Inner) + Margin(in)
              room == Room(in) + Margin(in)
          IN IF gw = 0 \/ room < gw THEN 1 ELSE room \div gw

(* Items of group k when there are g groups. *)
LineCount(in, g) == Ceil(NItems(in), g)
GroupItems(in, g, k) ==
   IF in.dir = "H" THEN IF k > NItems(in) THEN {} ELSE {j * g + k : j \in 0..((NItems(in) - k) \div g)}
   ELSE LET L == LineCount(in, g) IN ((k - 1) * L + 1)..MinOf(k * L, NItems(in))

MaxSet(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
TightWidths(in, ws, g) ==
   [k \in 1..g |-> LET S == GroupItems(in, g, k) IN
      [c \in 1..NCols(in) |-> MaxSet({ws[i][c] : i \in S})]]
TightTotal(in, ws, g) ==
   LET tw == TightWidths(in, ws, g)
   IN Margin(in) * (g - 1) + SumSeq([k \in 1..g |-> SumSeq(tw[k]) + MaxOf(0, Inner * (NCols(in) - 1))])

(* Would g groups leave no group empty?  (one more is harmless horizontally) *)
Useful(in, g, extra) ==
   IF in.dir = "H" THEN extra = 0 \/ g <= NItems(in) + 1
   ELSE IF NItems(in) = 0 THEN g <= 1 ELSE g <= Ceil(NItems(in), LineCount(in, g))

CanAdd(in, ws, g0, extra) ==
   LET g == g0 + extra + 1 IN Useful(in, g, extra) /\ TightTotal(in, ws, g) <= Room(in)

RECURSIVE Extra(_, _, _, _)
Extra(in, ws, g0, extra) == IF CanAdd(in, ws, g0, extra) THEN Extra(in, ws, g0, extra + 1) ELSE extra

(* The layout: number of groups, and whether groups have widths of their own. *)
Layout(in, ws) ==
   LET g0 == G0(in) e == IF in.compact THEN Extra(in, ws, g0, 0) ELSE 0
   IN [g |-> g0 + e, tight |-> e > 0]

GroupWidths(in, ws, lay) ==
   IF lay.tight THEN TightWidths(in, ws, lay.g)
   ELSE [k \in 1..lay.g |-> in.cw]

(* The items on line i (in order), for g groups. *)
LineItems(in, g, i) ==
   LET L == LineCount(in, g) n == NItems(in) IN
   IF in.dir = "H"
   THEN [k \in 1..MaxOf(0, MinOf(g, n - (i - 1) * g)) |-> (i - 1) * g + k]
   ELSE [k \in 1..MaxOf(0, MinOf(g, ((n - i) \div L) + 1)) |-> (k - 1) * L + i]

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

(* One cell in its field. *)
Field(al, t, tw, w) ==
   LET n == w - tw IN
   IF al = "X" THEN <<60>> \o t \o <<124>> \o Dec(w) \o <<62>>
   ELSE IF n <= 0 THEN t
   ELSE CASE al \in {"L", "N"} -> t \o Spaces(n)
          [] al \in {"R", "Y"} -> Spaces(n) \o t
          [] al = "C" -> Spaces(n - n \div 2) \o t \o Spaces(n \div 2)

Fields(in, ws, gw, k, item) ==
   [c \in 1..NCols(in) |-> Field(in.als[c], in.items[item][c], ws[item][c], gw[k][c])]

(* A line; one with fewer items than groups ends with one separator. *)
RenderLine(in, ws, lay, gw, i) ==
   LET its == LineItems(in, lay.g, i)
       rows == [k \in 1..Len(its) |-> Join(Fields(in, ws, gw, k, its[k]), InnerSep)]
   IN Join(IF Len(its) < lay.g THEN Append(rows, <<>>) ELSE rows, in.sep)

Render(in, ws, lay) ==
   LET gw == GroupWidths(in, ws, lay) IN
   [i \in 1..LineCount(in, lay.g) |-> RenderLine(in, ws, lay, gw, i)]

Output(lines) == Flat([i \in 1..Len(lines) |-> Append(lines[i], NewLn)])

(***************************************************************************)
(* What users rely on, as predicates over a request and the lines printed. *)
(***************************************************************************)
(* Texts without the characters used for padding and separating. *)
Squeeze(in, t) == SelectSeq(t, LAMBDA c : c # Space /\ \A k \in 1..Len(in.sep) : in.sep[k] # c)
SqItems(in) == [i \in 1..NItems(in) |-> Squeeze(in, Flat(SubSeq(in.items[i], 1, NCols(in))))]
HoldsItems(in, sq, sl, its) == sl = Flat([k \in 1..Len(its) |-> sq[its[k]]])

(* Group counts under which every item is printed once, in the right order. *)
OrderedBy(in, lines, sq, sls) ==
   {g \in 1..MaxOf(1, NItems(in)) :
      /\ Len(lines) = LineCount(in, g)
      /\ \A i \in 1..Len(lines) : HoldsItems(in, sq, sls[i], LineItems(in, g, i))}
Groups(in, lines) == OrderedBy(in, lines, SqItems(in), [i \in 1..Len(lines) |-> Squeeze(in, lines[i])])

(* C08, C09 *)
ItemsInOrder(in, lines) == Groups(in, lines) # {}

(* The table's widths cover the items. *)
Covered(in, ws) == \A i \in 1..NItems(in) : \A c \in 1..NCols(in) : ws[i][c] <= in.cw[c]

(* C10 *)
WithinRoom(in, lines) ==
   LET gs == Groups(in, lines) IN
   gs = {} \/ \E g \in gs : \A i \in 1..Len(lines) :
      Len(LineItems(in, g, i)) < 2 \/ W(lines[i], in.cfg) <= Room(in)

(* C11: on every line the k-th item's columns sit in the same fields. *)
HasAt(t, pos, f) == pos + Len(f) - 1 <= Len(t) /\ \A k \in 1..Len(f) : t[pos + k - 1] = f[k]
RECURSIVE FieldsMatch(_, _, _, _)
FieldsMatch(line, fs, seps, pos) ==    \* fs: expected field texts, seps: characters after each
   IF fs = <<>> THEN TRUE
   ELSE LET f == Head(fs) IN
        /\ HasAt(line, pos, f)
        /\ FieldsMatch(line, Tail(fs), Tail(seps), pos + Len(f) + Head(seps))
LineUp(in, ws, lay, lines) ==
   LET gw == GroupWidths(in, ws, lay) IN
   \A i \in 1..Len(lines) :
      LET its == LineItems(in, lay.g, i) IN
      FieldsMatch(lines[i],
         Flat([k \in 1..Len(its) |-> Fields(in, ws, gw, k, its[k])]),
         Flat([k \in 1..Len(its) |-> [c \in 1..NCols(in) |-> IF c = NCols(in) THEN Len(in.sep) ELSE Inner]]), 1)
Grid(in, ws, lines) ==
   \E g \in 1..(NItems(in) + 1) : Len(lines) = LineCount(in, g)
        /\ \E tt \in BOOLEAN : LineUp(in, ws, [g |-> g, tight |-> tt], lines)

(* C12: the layout is the specified one (whatever separates the fields). *)
Packed(in, ws, lines) == LET lay == Layout(in, ws) IN
   Len(lines) = LineCount(in, lay.g) /\ LineUp(in, ws, lay, lines)

(* C15: exact bytes for some layout. *)
Exact(in, ws, out) ==
   \E g \in 1..(NItems(in) + 1) : \E tt \in BOOLEAN : out = Output(Render(in, ws, [g |-> g, tight |-> tt]))
=============================================================================
