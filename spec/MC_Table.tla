------------------------------ MODULE MC_Table ------------------------------
(***************************************************************************)
(* All interleavings of a bounded number of operations on up to two tables *)
(* (sharing a specification or not), with the history of everything each   *)
(* table was given as a ghost variable.                                    *)
(***************************************************************************)
EXTENDS Table, FiniteSets
CONSTANTS K, MaxOps, MaxCols, MaxMaps, Widths
WLen(t, cfg) == Len(t)
VARIABLES st, given, ops, last
vars == <<st, given, ops, last>>
Letters(n) == Rep(97, n)
ColSet == {[name |-> n, al |-> "L", title |-> Letters(2), short |-> Letters(1)] : n \in 1..K}
Init == st = Empty /\ given = <<>> /\ ops = 0 /\ last = "init"
Tick == ops < MaxOps /\ ops' = ops + 1
DoSpec  == Tick /\ Len(st.specs) < 2 /\ st' = NewSpec(st) /\ last' = "spec" /\ UNCHANGED given
DoTable == Tick /\ Len(st.tabs) < 2 /\ last' = "table" /\ \E s \in 0..Len(st.specs) :
              st' = NewTable(st, s, K) /\ given' = Append(given, [k \in 1..K |-> {}])
DoAdd   == Tick /\ last' = "add" /\ UNCHANGED given
           /\ \E s \in 1..Len(st.specs) : Len(st.specs[s]) < MaxCols
              /\ \/ \E c \in ColSet : st' = AddNew(st, s, c)
                 \/ \E i \in 1..Len(st.cols) : st' = AddColumn(st, s, i)
DoSet   == Tick /\ last' = "set" /\ UNCHANGED given /\ \E i \in 1..Len(st.cols) :
              st' = SetColumn(st, i, [st.cols[i] EXCEPT !.title = Letters(3)])
DoMap   == Tick /\ last' = "map" /\ UNCHANGED given
           /\ \/ Len(st.maps) < MaxMaps /\ st' = NewMap(st, K)
              \/ \E m \in 1..Len(st.maps), n \in 1..K, x \in Widths : st' = SetMap(st, m, <<<<n, x>>>>)
DoFrom  == Tick /\ last' = "update" /\ \E t \in 1..Len(st.tabs), m \in 1..Len(st.maps) :
              /\ st' = UpdateFrom(st, t, m)
              /\ given' = [given EXCEPT ![t] = [k \in 1..K |-> @[k] \cup ({st.maps[m][k]} \ {-1})]]
DoUpd   == Tick /\ last' = "update" /\ \E t \in 1..Len(st.tabs), n \in 1..K, x \in Widths :
              /\ st' = UpdateWidth(st, t, <<<<n, x>>>>)
              /\ given' = [given EXCEPT ![t][n] = @ \cup {x}]
DoFmt   == Tick /\ last' = "format" /\ \E t \in 1..Len(st.tabs) :
              LET cs == Cols(st, t) IN \E ws \in [1..Len(cs) -> Widths] :
              /\ st' = Format(st, t, ws)
              /\ given' = [given EXCEPT ![t] = [k \in 1..K |-> @[k] \cup {ws[i] : i \in {j \in 1..Len(cs) : cs[j].name = k}}]]
DoFail  == Tick /\ last' = "fail" /\ \E t \in 1..Len(st.tabs) :
              LET cs == Cols(st, t) IN \E ws \in [1..Len(cs) -> Widths], f \in 1..Len(cs), upto \in 0..2 :
              /\ upto < f
              /\ st' = [st EXCEPT !.tabs[t].w = Widen(@, cs, ws, upto)]
              /\ given' = [given EXCEPT ![t] = [k \in 1..K |-> @[k] \cup {ws[i] : i \in {j \in 1..upto : cs[j].name = k}}]]
DoRead  == Tick /\ last' = "read" /\ st.tabs # <<>> /\ UNCHANGED <<st, given>>
Next == DoSpec \/ DoTable \/ DoAdd \/ DoUpd \/ DoSet \/ DoMap \/ DoFrom \/ DoFmt \/ DoFail \/ DoRead
Spec == Init /\ [][Next]_vars

MaxGiven(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* C04: the width is the maximum ever given, and never decreases. *)
WidthIsMax == \A t \in 1..Len(st.tabs) : \A k \in 1..K : st.tabs[t].w[k] = MaxGiven(given[t][k])
Monotonic == [][\A t \in 1..Len(st.tabs) : \A k \in 1..K : st'.tabs[t].w[k] >= st.tabs[t].w[k]]_vars
(* C26, C27 *)
Isolated == [][Cardinality({t \in 1..Len(st.tabs) : st'.tabs[t].w # st.tabs[t].w}) <= 1]_vars
AppendOnly == [][\A s \in 1..Len(st.specs) : IsPrefix(st.specs[s], st'.specs[s])]_vars
Registry == \A s \in 1..Len(st.specs) : \A n \in 1..K :
               /\ HasColumn(st, s, n) <=> ByName(st, s, n) # 0
               /\ ByName(st, s, n) # 0 => \E i \in 1..Len(st.specs[s]) : /\ st.specs[s][i] = ByName(st, s, n)
                     /\ st.cols[st.specs[s][i]].name = n
                     /\ \A j \in (i + 1)..Len(st.specs[s]) : st.cols[st.specs[s][j]].name # n
(* callers' objects change only by their callers *)
Callers == [][(last' # "map" => st'.maps = st.maps) /\ (last' \notin {"add", "set"} => st'.cols = st.cols)]_vars
SharedSeenByAll == \A t, u \in 1..Len(st.tabs) : st.tabs[t].spec = st.tabs[u].spec => Cols(st, t) = Cols(st, u)
OwnSpec == [][last' = "table" /\ Len(st'.specs) > Len(st.specs) =>
                \A t \in 1..Len(st.tabs) : st'.tabs[t].spec # st'.tabs[Len(st'.tabs)].spec]_vars
(* C05, C06 for every reachable table *)
HeaderFits == \A t \in 1..Len(st.tabs) :
   LET h == Header(st, t, <<124>>, 0) cw == ColW(st, t) IN
   /\ h[Len(h)] = NewLn
   /\ \A i \in 1..Len(cw) : LET f == HeaderField(Cols(st, t)[i], cw[i], 0) IN
        IF cw[i] = 0 THEN f = Cols(st, t)[i].title ELSE Len(f) = cw[i]
RowsFill == \A t \in 1..Len(st.tabs) : LET cw == ColW(st, t)
                row == [i \in 1..Len(cw) |-> Letters(1)] a == AlignRow(st, t, row, 0) IN
   \A i \in 1..Len(cw) : Len(a[i]) = MaxOf(cw[i], 1)
TotalFits == \A t \in 1..Len(st.tabs) : TableWidth(st, t, 0) = SumSeq(ColW(st, t))
=============================================================================
