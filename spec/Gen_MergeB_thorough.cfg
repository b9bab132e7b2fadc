CONSTANTS NI = 3
  NC = 2
  MW = 2
  MX = 9
  Als = {"L"}
  Overs = {0, 1}
  Seps <- SmallSeps
  W <- WLen
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
