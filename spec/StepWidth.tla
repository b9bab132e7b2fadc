----------------------------- MODULE StepWidth -----------------------------
(* The width the step function reports with a cluster (C23): fixed, not    *)
(* dependent on a configuration.                                           *)
EXTENDS UcdGraphemes
Wide14Runs   == JsonDeserialize(IOEnv.SPECDIR \o "/data/wide14.json")
EmojiPresRuns == JsonDeserialize(IOEnv.SPECDIR \o "/data/emojipres.json")
(* membership tables: runs <<a, b>> to a dense sequence of 0/1 *)
Dense01(runs) ==
   LET n == Len(runs) IN
   Flat([k \in 1..(2 * n + 1) |->
      IF k % 2 = 0 THEN Rep(1, runs[k \div 2][2] - runs[k \div 2][1] + 1)
      ELSE LET i == (k - 1) \div 2                              \* gap after run i
               from == IF i = 0 THEN 0 ELSE runs[i][2] + 1
               to == IF i = n THEN MaxCP ELSE runs[i + 1][1] - 1
           IN Rep(0, to - from + 1)])
Wide14 == Dense01(Wide14Runs)
EmojiPres == Dense01(EmojiPresRuns)
VS15 == 65038  VS16 == 65039
TwoEm == 11834 ThreeEm == 11835

(* One code point, given its grapheme class. *)
CpWidth(r, cl) ==
   CASE cl \in {gControl, gCR, gLF, gExtend, gZWJ} -> 0
     [] cl = gRI    -> 2
     [] cl = gPict  -> IF EmojiPres[r + 1] = 1 THEN 2 ELSE 1
     [] r = TwoEm   -> 3
     [] r = ThreeEm -> 4
     [] OTHER       -> IF Wide14[r + 1] = 1 THEN 2 ELSE 1

(* A cluster: the first code point's class decides how others count. *)
ClusterStepWidth(cl) ==
   LET first == CP(cl[1]) fc == Gcb(cl[1]) IN
   FoldLeftDomain(LAMBDA a, i :
      IF i = 1 THEN a
      ELSE LET r == CP(cl[i]) IN
           IF r = VS16 THEN 2
           ELSE IF fc = gPict THEN (IF r = VS15 THEN 1 ELSE 2)
           ELSE IF fc \in {gRI, gL} THEN a
           ELSE a + CpWidth(r, Gcb(cl[i])),
      CpWidth(first, fc), cl)
=============================================================================
