SPECIFICATION Spec
INVARIANTS NeverC NarrowWins Utf8OnlyCJK ModifierIgnored CaseOfCharset FirstWins EmptyIsUnset Override NoOverride
CHECK_DEADLOCK FALSE
