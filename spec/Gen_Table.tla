----------------------------- MODULE Gen_Table -----------------------------
(***************************************************************************)
(* Behaviours of the table machine, as histories for the driver (TLC's     *)
(* simulator): every operation of Table with arguments from small pools.   *)
(***************************************************************************)
EXTENDS Table, Json, TLCExt
CONSTANTS K, D
WLen(t, cfg) == Len(t)
VARIABLES st, hist
vars == <<st, hist>>
Pool  == {<<>>, <<161, 9734>>, <<127777, 97>>, <<97>>, <<98, 98>>, <<12354>>, <<27, 91, 51, 49, 109, 114, 27, 91, 48, 109>>, <<99, 99, 99, 99, 99>>}
Seps  == {<<>>, <<124>>, <<32, 124, 32>>}
Names == {"a", "b"}
None  == [op |-> "", t |-> 0, s |-> 0]
Say(e) == hist' = Append(hist, e)
TS == 1..Len(st.tabs)
NColsOf(t) == Len(Cols(st, t))
Init == st = Empty /\ hist = <<>>
Pick(S) == {RandomElement(S)}
Spec1 == Len(st.specs) < 3 /\ st' = NewSpec(st) /\ Say([op |-> "spec"])
Tab1  == Len(st.tabs) < 3 /\ \E s \in Pick(0..Len(st.specs)) : st' = NewTable(st, s, K) /\ Say([op |-> "table", s |-> s])
Add1  == st.specs # <<>> /\
         \E s \in Pick(1..Len(st.specs)), n \in Pick(1..3), al \in Pick({"L", "R", "C", "N", "X", "Y"}), ti \in Pick(Pool),
            sh \in Pick({<<>>, <<115>>, <<116, 116, 116>>}), via \in Pick(0..1),
            old \in Pick(0..(2 * Len(st.cols))) :
            LET c == [name |-> n, al |-> al, title |-> ti, short |-> sh] IN
            /\ Len(st.specs[s]) < 5
            /\ IF old \in 1..Len(st.cols)
               THEN st' = AddColumn(st, s, old) /\ Say([op |-> "add", s |-> s, via |-> via, old |-> old, col |-> c])
               ELSE st' = AddNew(st, s, c) /\ Say([op |-> "add", s |-> s, via |-> via, old |-> 0, col |-> c])
Set1  == st.cols # <<>> /\ \E i \in Pick(1..Len(st.cols)), al \in Pick({"L", "R", "C", "N", "X", "Y"}), ti \in Pick(Pool), sh \in Pick(Pool) :
            LET c == [name |-> 1, al |-> al, title |-> ti, short |-> sh] IN
            st' = SetColumn(st, i, c) /\ Say([op |-> "set", old |-> i, col |-> c])
Map1  == \E m \in Pick(1..MinOf(2, Len(st.maps) + 1)), n \in Pick(1..K), x \in Pick(-1..7) :
            st' = SetMap(IF m > Len(st.maps) THEN NewMap(st, K) ELSE st, m, <<<<n, x>>>>)
            /\ Say([op |-> "map", mp |-> m, ups |-> <<<<n, x>>>>])
From1 == st.maps # <<>> /\ \E t \in Pick(TS), m \in Pick(1..Len(st.maps)) :
            st' = UpdateFrom(st, t, m) /\ Say([op |-> "update", t |-> t, mp |-> m])
Upd1  == \E t \in Pick(TS), n \in Pick(1..K), x \in Pick(0..6) : st' = UpdateWidth(st, t, <<<<n, x>>>>)
            /\ Say([op |-> "update", t |-> t, ups |-> <<<<n, x>>>>])
RowOf(t) == RandomElement([1..NColsOf(t) -> Pool])
Kinds(t) == RandomElement([1..NColsOf(t) -> {"s", "nil", "int", "ptr", "err", "text", "time"}])
Fails(t, b) == IF b = 0 THEN RandomElement([1..NColsOf(t) -> {"", "v", "f"}]) ELSE [i \in 1..NColsOf(t) |-> ""]
Fmt1  == \E t \in Pick(TS), b \in Pick(0..3) : \E row \in {RowOf(t)}, f \in {Fails(t, b)} :
            /\ st' = IF b = 0 THEN st ELSE Format(st, t, [i \in 1..NColsOf(t) |-> Len(row[i])])
            /\ Say([op |-> "format", t |-> t, row |-> row, vk |-> Kinds(t), fail |-> f, errkind |-> ""])
Bas1  == \E t \in Pick(TS), b \in Pick(0..3), sep \in Pick(Seps) :
            /\ Say([op |-> "basic", t |-> t, row |-> RowOf(t), vk |-> Kinds(t), sep |-> sep, fail |-> Fails(t, b), errkind |-> "eof"])
            /\ UNCHANGED st
Aln1  == \E t \in Pick(TS), d \in Pick(0..7) : Say([op |-> "align", t |-> t, ri |-> d \div 3, row |-> IF d = 1 THEN Append(RowOf(t), <<97>>) ELSE RowOf(t)])
            /\ UNCHANGED st
Hdr1  == \E t \in Pick(TS), sep \in Pick(Seps) : Say([op |-> "header", t |-> t, sep |-> sep]) /\ UNCHANGED st
Wid1  == \E t \in Pick(TS), m \in Pick({0, 1, 3, 40000}) : Say([op |-> "twidth", t |-> t, m |-> m]) /\ UNCHANGED st
Mrg1  == \E t \in Pick(TS), sep \in Pick(Seps), dir \in Pick({"H", "V"}), c \in Pick(BOOLEAN), mx \in Pick({-1, 5, 12, 30}), n \in Pick(0..4) :
            Say([op |-> "merge", t |-> t, ri |-> n % 2, sep |-> sep, dir |-> dir, compact |-> c, max |-> mx,
                 items |-> [i \in 1..n |-> RowOf(t)]]) /\ UNCHANGED st
Cnf1  == \E ea \in Pick(BOOLEAN), strict \in Pick(BOOLEAN), m \in Pick(0..3) :
            Say([op |-> "conf", ea |-> ea, strict |-> strict, m |-> m]) /\ UNCHANGED st
Ops(x) == CASE x = 1 -> Spec1 [] x = 2 -> Tab1 [] x \in {3, 4, 15} -> Add1 [] x = 5 -> Upd1 [] x \in {6, 7, 8} -> Fmt1
            [] x = 9 -> Bas1 [] x \in {10, 11} -> Aln1 [] x = 12 -> Hdr1 [] x = 13 -> Wid1 [] x = 14 -> Mrg1
            [] x = 16 -> Set1 [] x \in {17, 18} -> Map1 [] x = 19 -> From1 [] x = 20 -> Cnf1 [] OTHER -> Hdr1
Able(x) == CASE x = 1 -> Len(st.specs) < 3 [] x = 2 -> Len(st.tabs) < 3 [] x \in {3, 4, 15} -> \A s \in 1..Len(st.specs) : Len(st.specs[s]) < 5
             [] x = 16 -> st.cols # <<>> [] x = 19 -> st.maps # <<>> [] OTHER -> TRUE
(* one random operation: set up specifications and tables first *)
Next == /\ Len(hist) < D
        /\ \E x \in Pick(1..20) : IF st.tabs = <<>> THEN (IF x % 2 = 0 /\ Len(st.specs) < 2 THEN Spec1 ELSE Tab1) 
                                     ELSE Ops(IF st.cols = <<>> /\ x > 4 THEN 3 ELSE IF Able(x) THEN x ELSE 21)
GenSpec == Init /\ [][Next]_vars
Emit == Len(hist) < D \/ PrintT(ToJson([evs |-> hist]))
=============================================================================
