CONSTANTS Bad <- BadHistory
  ChunkSize = 40
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
