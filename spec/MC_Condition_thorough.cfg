CONSTANTS MaxOps = 7
  MaxConds = 3
SPECIFICATION Spec
INVARIANT Refines
PROPERTIES Others LutSame LutFollows PackageLevel
CHECK_DEADLOCK FALSE
