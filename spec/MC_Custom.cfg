SPECIFICATION MCSpec
INVARIANTS Based Untouched
PROPERTIES Single
CHECK_DEADLOCK FALSE
