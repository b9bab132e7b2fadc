CONSTANTS Bad <- BadWidth
  ChunkSize = 50
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
