----------------------------- MODULE Val_Locale -----------------------------
(* Recorded locale decisions (C21) and process start-ups (C22).             *)
EXTENDS RuneWidth, Locale, ValCore
Val(v) == IF v.set THEN v.v ELSE <<>>
Star == 9734  Thermometer == 127777
Confs4 == <<[ea |-> FALSE, strict |-> TRUE], [ea |-> FALSE, strict |-> FALSE], [ea |-> TRUE, strict |-> TRUE], [ea |-> TRUE, strict |-> FALSE]>>
Fail(ok, why) == IF ok THEN {} ELSE {ToString(why)}
BadLocale(r) ==
   IF r.o # "ok" THEN {r.o}
   ELSE IF r.k = "loc" THEN
        LET e == FromEnv(Val(r.all), Val(r.ctype), Val(r.lang)) IN IF r.res = e THEN {} ELSE {<<"must be", e>>}
   ELSE LET ea == AtStart(Val(r.rw), Val(r.all), Val(r.ctype), Val(r.lang)) g == r.got cfg == [ea |-> ea, strict |-> TRUE] IN
        Fail(g.flag = ea, <<"flag must be", ea>>) \cup Fail(g.def = ea, <<"default condition must be", ea>>)
        \cup Fail(g.new = ea, <<"new condition must be", ea>>)
        \cup Fail(g.strict /\ g.defs /\ g.news, "strict emoji neutrality must be on")
        \cup Fail(g.later = [i \in 1..4 |-> LET c == Confs4[i] IN <<IF c.ea THEN 1 ELSE 0, IF c.strict THEN 1 ELSE 0, WidthOf(Star, c), WidthOf(Thermometer, c)>>],
                  "conditions made later must take the package-wide flags as they are then")
        \cup Fail(Len(g.widths) = 13 /\ \A i \in 1..Len(g.widths) : g.widths[i] = WidthOf(Star, cfg), <<"widths must be", WidthOf(Star, cfg)>>)
        \cup Fail(Len(g.ewidths) = 13 /\ \A i \in 1..Len(g.ewidths) : g.ewidths[i] = WidthOf(Thermometer, cfg), <<"emoji widths must be", WidthOf(Thermometer, cfg)>>)
=============================================================================
