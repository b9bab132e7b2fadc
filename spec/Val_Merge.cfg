CONSTANTS Bad <- BadMerge
  W <- VWM
  ChunkSize = 20
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
