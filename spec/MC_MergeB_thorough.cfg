CONSTANTS NI = 6
  NC = 1
  MW = 2
  MX = 13
  Als = {"C"}
  Overs = {0}
  Seps <- SmallSeps
  W <- WLen
SPECIFICATION Spec
INVARIANTS AllPrintedInOrder StaysWithin GridLinesUp PackedAsSpecified ExactBytes NothingForNothing PrefixOnFailure NoSilentFailure SearchIsBounded CompactNeverWorse
PROPERTY Terminates
CHECK_DEADLOCK FALSE
