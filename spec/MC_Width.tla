------------------------------ MODULE MC_Width ------------------------------
(***************************************************************************)
(* Texts over a small alphabet that has one representative of everything   *)
(* that matters to measuring: introducers, lead characters, digits, finals,*)
(* plain, wide, ambiguous, combining and zero-width characters.  A text    *)
(* grows by one character per step.                                        *)
(***************************************************************************)
EXTENDS VisualWidth
CONSTANT N
Alphabet == {27, 155, 91, 59, 49, 109, 112, 12354, 9734, 769}
(* ESC, CSI, '[', ';', '1', 'm', 'p', HIRAGANA A (wide), WHITE STAR (ambiguous), COMBINING ACUTE *)
Cfgs == {[ea |-> FALSE, strict |-> TRUE], [ea |-> TRUE, strict |-> TRUE]}
VARIABLE t
Init == t = <<>>
Next == Len(t) < N /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
(* Escapes are invisible: removing them changes nothing (the alphabet has no *)
(* character of non-zero width that attaches to the preceding one).          *)
EscapesInvisible == \A g \in Cfgs : VW(t, g) = StringWidth(Strip(t), g)
NonNegative == \A g \in Cfgs : VW(t, g) >= 0 /\ VW(t, g) <= MaxWidth
FoldIsDef == \A g \in Cfgs : StringWidth(t, g) = StringWidthDef(t, g)
EscapesWellFormed == LET es == Escapes(t) IN \A k \in 1..Len(es) :
     /\ t[es[k][1]] \in Intro /\ t[es[k][2]] \in Final /\ es[k][1] < es[k][2]
     /\ \A i \in (es[k][1] + 1)..(es[k][2] - 1) : t[i] \in Lead \cup Digit
     /\ k > 1 => es[k-1][2] < es[k][1]
(* A terminated CSI sequence is always recognised entirely. *)
CompleteCsi == \A i \in 1..Len(t) : \A j \in (i+1)..Len(t) :
     (t[i] = 27 /\ t[j] = 109 /\ (\A k \in (i+1)..(j-1) : t[k] \in {91, 49, 59})
        /\ t[i+1] = 91 /\ j > i + 1 /\ (\A k \in (i+2)..(j-1) : t[k] # 91) )
     => \E k \in 1..Len(Escapes(t)) : Escapes(t)[k] = <<i, j>>
AlignExact == \A g \in Cfgs : \A al \in {"L", "R", "C"} : \A w \in {0, 1, 3, 4} :
     LET o == Align(al, t, w, g) IN
       /\ Len(o) = Len(t) + MaxOf(0, w - VW(t, g))
       /\ \E k \in 0..(Len(o) - Len(t)) : o = Spaces(k) \o t \o Spaces(Len(o) - Len(t) - k)
                /\ (al = "L" => k = 0) /\ (al = "R" => k = Len(o) - Len(t))
                /\ (al = "C" => 2 * k - (Len(o) - Len(t)) \in {0, 1})
       /\ (t = <<>> \/ t[1] # 769) => VW(o, g) = MaxOf(w, VW(t, g))
EastAsianWider == \A g \in Cfgs : VW(t, [ea |-> FALSE, strict |-> TRUE]) <= VW(t, g)
=============================================================================
