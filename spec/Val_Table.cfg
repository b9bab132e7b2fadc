CONSTANTS Bad <- BadTable
  W <- VWT
  ChunkSize = 4
SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
