CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS Agree Partition Tables
PROPERTY Stable
CHECK_DEADLOCK FALSE
