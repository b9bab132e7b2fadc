CONSTANTS NI = 4
  NC = 1
  MW = 2
  MX = 8
  Als = {"C"}
  Overs = {0}
  Seps <- SmallSeps
  W <- WLen
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
