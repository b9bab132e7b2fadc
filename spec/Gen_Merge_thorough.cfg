CONSTANTS NI = 6
  NC = 1
  MW = 2
  MX = 13
  Als = {"R"}
  Overs = {0}
  Seps <- SmallSeps
  W <- WLen
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
