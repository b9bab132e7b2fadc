CONSTANTS NI = 2
  NC = 2
  MW = 2
  MX = 5
  Als = {"L", "R"}
  Overs = {0, 1}
  Seps <- SmallSeps
  W <- WLen
SPECIFICATION Spec
INVARIANTS AllPrintedInOrder StaysWithin GridLinesUp PackedAsSpecified ExactBytes NothingForNothing PrefixOnFailure NoSilentFailure SearchIsBounded CompactNeverWorse
PROPERTY Terminates
CHECK_DEADLOCK FALSE
