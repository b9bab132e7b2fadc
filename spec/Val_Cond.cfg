CONSTANTS Bad <- BadCond
  ChunkSize = 10
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
