SPECIFICATION MCSpec
INVARIANTS Kept Returns
CHECK_DEADLOCK FALSE
