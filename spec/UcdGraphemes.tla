---------------------------- MODULE UcdGraphemes ----------------------------
(* Grapheme break class of every code point (Unicode 14.0 data, dense).    *)
EXTENDS Text, Graphemes, Json, IOUtils
GcbRuns == JsonDeserialize(IOEnv.SPECDIR \o "/data/gcb.json")
ClassOf == [x \in {"Any","CR","LF","Control","Extend","ExtendedPictographic","L","V","T","LV","LVT",
                   "Prepend","RegionalIndicator","SpacingMark","ZWJ"} |->
    CASE x = "Any" -> gAny [] x = "CR" -> gCR [] x = "LF" -> gLF [] x = "Control" -> gControl
      [] x = "Extend" -> gExtend [] x = "ExtendedPictographic" -> gPict [] x = "L" -> gL
      [] x = "V" -> gV [] x = "T" -> gT [] x = "LV" -> gLV [] x = "LVT" -> gLVT
      [] x = "Prepend" -> gPrepend [] x = "RegionalIndicator" -> gRI
      [] x = "SpacingMark" -> gSpacing [] x = "ZWJ" -> gZWJ]
GcbDense == Flat([i \in 1..Len(GcbRuns) |-> LET r == GcbRuns[i] cl == ClassOf[r[3]] IN
                     [k \in 1..(r[2] - r[1] + 1) |-> cl]])
(* class of a character of a text *)
Gcb(c) == GcbDense[CP(c) + 1]
=============================================================================
