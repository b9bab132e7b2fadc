CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS EscapesInvisible NonNegative FoldIsDef EscapesWellFormed CompleteCsi AlignExact EastAsianWider
CHECK_DEADLOCK FALSE
