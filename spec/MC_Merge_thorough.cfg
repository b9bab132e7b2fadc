CONSTANTS NI = 3
  NC = 2
  MW = 2
  MX = 7
  Als = {"L", "R"}
  Overs = {0}
  Seps <- SmallSeps
  W <- WLen
SPECIFICATION Spec
INVARIANTS AllPrintedInOrder StaysWithin GridLinesUp PackedAsSpecified ExactBytes NothingForNothing PrefixOnFailure NoSilentFailure SearchIsBounded CompactNeverWorse
PROPERTY Terminates
CHECK_DEADLOCK FALSE
