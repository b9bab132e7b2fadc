CONSTANTS K = 2
  MaxOps = 6
  MaxCols = 2
  MaxMaps = 1
  Widths = {0, 1, 2}
  W <- WLen
SPECIFICATION Spec
INVARIANTS WidthIsMax Registry SharedSeenByAll HeaderFits RowsFill TotalFits
PROPERTIES Monotonic Isolated AppendOnly OwnSpec Callers
CHECK_DEADLOCK FALSE
