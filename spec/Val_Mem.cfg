CONSTANTS Bad <- BadMemory
  ChunkSize = 4
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
