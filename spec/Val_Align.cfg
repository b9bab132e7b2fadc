CONSTANTS Bad <- BadAlign
  ChunkSize = 50
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
