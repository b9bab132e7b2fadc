CONSTANTS Bad <- BadGraph
  ChunkSize = 20
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
