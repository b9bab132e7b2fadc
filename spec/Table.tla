------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Column specifications and tables.                                       *)
(*                                                                         *)
(* State:  cols   the column objects callers made, [name, al, title, short]*)
(*         specs  a sequence of column lists (numbers of columns, in order *)
(*                of addition; a column may be in several, or twice)       *)
(*         tabs   a sequence of [spec, w]: the specification a table uses  *)
(*                (shared with others or its own) and its width per name   *)
(*         maps   the width maps callers hold (-1: name not in the map)    *)
(* Column names are numbers 1..K.  Every operation is an operator from     *)
(* state to state and/or to a result, used by the machine in MC_Table, by  *)
(* the generator Gen_Table and by trace validation in Val_Table.           *)
(***************************************************************************)
EXTENDS Text
CONSTANT W(_, _)                       \* width of a text in a configuration

TMax == 65535
NoCols == <<>>
Zero(K) == [k \in 1..K |-> 0]
Empty == [cols |-> <<>>, specs |-> <<>>, tabs |-> <<>>, maps |-> <<>>]

ColsOf(st, s)    == [i \in 1..Len(st.specs[s]) |-> st.cols[st.specs[s][i]]]
Cols(st, t)      == ColsOf(st, st.tabs[t].spec)

(***************************** changing *************************************)
NewSpec(st)       == [st EXCEPT !.specs = Append(@, NoCols)]
NewTable(st, s, K) ==                  \* s = 0: a specification of its own
   IF s = 0 THEN [st EXCEPT !.specs = Append(@, NoCols),
                            !.tabs = Append(@, [spec |-> Len(st.specs) + 1, w |-> Zero(K)])]
   ELSE [st EXCEPT !.tabs = Append(@, [spec |-> s, w |-> Zero(K)])]
AddColumn(st, s, id)    == [st EXCEPT !.specs[s] = Append(@, id)]
AddNew(st, s, col)      == [st EXCEPT !.cols = Append(@, col), !.specs[s] = Append(@, Len(st.cols) + 1)]
(* The caller gives a column other titles or another alignment. *)
SetColumn(st, id, col)  == [st EXCEPT !.cols[id] = [col EXCEPT !.name = st.cols[id].name]]
(* The caller makes or changes a width map; tables only read it when asked to. *)
NewMap(st, K)           == [st EXCEPT !.maps = Append(@, [k \in 1..K |-> -1])]
SetMap(st, m, ups)      == [st EXCEPT !.maps[m] = FoldLeft(LAMBDA a, u : [a EXCEPT ![u[1]] = u[2]], @, ups)]
Grow(w, n, x)           == [w EXCEPT ![n] = MaxOf(@, x)]
UpdateWidth(st, t, ups) ==             \* ups: sequence of <<name, width>>
   [st EXCEPT !.tabs[t].w = FoldLeft(LAMBDA a, u : Grow(a, u[1], u[2]), @, ups)]
UpdateFrom(st, t, m)    ==             \* by what the map holds now
   [st EXCEPT !.tabs[t].w = [k \in 1..Len(@) |-> MaxOf(@[k], st.maps[m][k])]]
(* Formatting a row widens the columns of all cells ... *)
Widen(w, cols, ws, n)   == FoldLeftDomain(LAMBDA a, i : IF i <= n THEN Grow(a, cols[i].name, ws[i]) ELSE a, w, cols)
Format(st, t, ws)       == [st EXCEPT !.tabs[t].w = Widen(@, Cols(st, t), ws, Len(ws))]
(* ... and one that fails at column f of at most the cells before f. *)
FailedWidths(w, cols, ws, f, post) ==
   \A k \in 1..Len(w) : \/ post[k] = w[k]
                        \/ /\ post[k] > w[k]
                           /\ \E i \in 1..(f - 1) : cols[i].name = k /\ ws[i] = post[k]

(***************************** reading **************************************)
ColW(st, t)      == LET cs == Cols(st, t) IN [i \in 1..Len(cs) |-> st.tabs[t].w[cs[i].name]]
HasColumn(st, s, n) == \E i \in 1..Len(st.specs[s]) : st.cols[st.specs[s][i]].name = n
(* The column found under a name: the one added last; 0 if there is none. *)
ByName(st, s, n) == FoldLeft(LAMBDA a, id : IF st.cols[id].name = n THEN id ELSE a, 0, st.specs[s])

TableWidth(st, t, margin) ==
   LET cs == Cols(st, t) IN
   IF cs = <<>> THEN 0 ELSE MinOf(TMax, SumSeq(ColW(st, t)) + (Len(cs) - 1) * margin)

(* Alignment of a text in a field ("N": none, "X": a function of the caller, "Y": one that aligns right). *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Place(al, t, w, cfg) ==
   IF al = "N" THEN t
   ELSE IF al = "X" THEN <<60>> \o t \o <<124>> \o Digits(w) \o <<62>>
   ELSE LET n == w - W(t, cfg) IN
        IF n <= 0 THEN t
        ELSE CASE al = "L" -> t \o Spaces(n)
               [] al \in {"R", "Y"} -> Spaces(n) \o t
               [] al = "C" -> Spaces(n - n \div 2) \o t \o Spaces(n \div 2)

AlignRow(st, t, row, cfg) ==
   LET cs == Cols(st, t) cw == ColW(st, t) IN [i \in 1..Len(cs) |-> Place(cs[i].al, row[i], cw[i], cfg)]

(* The longest of title, short title, nothing that fits; all of the title  *)
(* while the width is still unknown.                                       *)
TitleFor(c, w, cfg) == IF w = 0 \/ W(c.title, cfg) <= w THEN c.title
                       ELSE IF W(c.short, cfg) <= w THEN c.short ELSE <<>>
HeaderField(c, w, cfg) == LET t == TitleFor(c, w, cfg) IN IF w = 0 THEN t ELSE Place("C", t, w, cfg)
Header(st, t, sep, cfg) ==
   LET cs == Cols(st, t) cw == ColW(st, t) IN
   Append(Flat([i \in 1..Len(cs) |-> HeaderField(cs[i], cw[i], cfg) \o sep]), NewLn)
=============================================================================
