CONSTANTS K = 6
  D = 24
  W <- WLen
SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
