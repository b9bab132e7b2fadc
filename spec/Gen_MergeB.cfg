CONSTANTS NI = 2
  NC = 2
  MW = 2
  MX = 6
  Als = {"R"}
  Overs = {0}
  Seps <- SmallSeps
  W <- WLen
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
