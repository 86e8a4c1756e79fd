SPECIFICATION MCSpec
INVARIANTS Alone
CHECK_DEADLOCK FALSE
