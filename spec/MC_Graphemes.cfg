CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS Agree Partition Tables
PROPERTY Stable
CHECK_DEADLOCK FALSE
