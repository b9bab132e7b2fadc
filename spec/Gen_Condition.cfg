CONSTANTS D = 7
  MaxConds = 4
SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
