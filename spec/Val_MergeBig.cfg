CONSTANTS Bad <- BadMerge
  W <- VWM
  ChunkSize = 1
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
