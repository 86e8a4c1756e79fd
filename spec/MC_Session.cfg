SPECIFICATION MCSpec
INVARIANTS Shaped
PROPERTIES Framed
CHECK_DEADLOCK FALSE
