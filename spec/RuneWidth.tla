------------------------------ MODULE RuneWidth ------------------------------
(***************************************************************************)
(* Width of a code point in a configuration, and of a text.                *)
(* Data: width class of every code point (East Asian Width of Unicode 13.0,*)
(* combining, non-printing and emoji characters).                          *)
(***************************************************************************)
EXTENDS UcdGraphemes

WClassRuns == JsonDeserialize(IOEnv.SPECDIR \o "/data/wclass.json")
(* Width classes: Z no width (controls, formats, combining), N narrow, W wide *)
(* or fullwidth, A ambiguous, E emoji of neutral width, O other.              *)
WClasses == Flat([i \in 1..Len(WClassRuns) |-> LET r == WClassRuns[i] IN Rep(r[3], r[2] - r[1] + 1)])

(* A configuration is [ea : BOOLEAN, strict : BOOLEAN]. *)
ClassWidth(cl, cfg) ==
   CASE cl = "Z" -> 0
     [] cl = "N" -> 1
     [] cl = "W" -> 2
     [] cl = "A" -> IF cfg.ea THEN 2 ELSE 1
     [] cl = "E" -> IF cfg.ea /\ ~cfg.strict THEN 2 ELSE 1
     [] OTHER    -> 1

WidthOf(r, cfg) == IF r < 0 \/ r > MaxCP THEN 0 ELSE ClassWidth(WClasses[r + 1], cfg)

CharWidth(c, cfg) == WidthOf(CP(c), cfg)

(* Sum over grapheme clusters of the first non-zero code point width. *)
StringWidth(t, cfg) ==
   LET r == FoldLeft(LAMBDA a, c :
              LET k == (a.st + 1) * 15 + Gcb(c) + 1 w == CharWidth(c, cfg) IN
              IF JoinTab[k]
              THEN [st |-> NextTab[k], cw |-> IF a.cw > 0 THEN a.cw ELSE w, tot |-> a.tot]
              ELSE [st |-> NextTab[k], cw |-> w, tot |-> a.tot + a.cw],
            [st |-> sStart, cw |-> 0, tot |-> 0], t)
   IN r.tot + r.cw

(* The same, straight from the definition: over the list of clusters. *)
ClusterLens(t) == Lengths([i \in 1..Len(t) |-> Gcb(t[i])])
Clusters(t) ==
   LET ls == ClusterLens(t)
       from == FoldLeft(LAMBDA a, l : Append(a, a[Len(a)] + l), <<0>>, ls)
   IN [i \in 1..Len(ls) |-> SubSeq(t, from[i] + 1, from[i] + ls[i])]
ClusterWidth(cl, cfg) ==
   LET nz == SelectSeq(cl, LAMBDA c : CharWidth(c, cfg) > 0) IN
   IF nz = <<>> THEN 0 ELSE CharWidth(nz[1], cfg)
StringWidthDef(t, cfg) == LET cs == Clusters(t) IN SumSeq([i \in 1..Len(cs) |-> ClusterWidth(cs[i], cfg)])

(* Maximal runs <<first, last, width>> over all code points in a configuration. *)
WidthRuns(cfg) ==
   FoldLeft(LAMBDA a, r :
      LET w == ClassWidth(r[3], cfg) n == Len(a) IN
      IF n > 0 /\ a[n][3] = w THEN [a EXCEPT ![n] = <<a[n][1], r[2], w>>]
      ELSE Append(a, <<r[1], r[2], w>>), <<>>, WClassRuns)
=============================================================================
