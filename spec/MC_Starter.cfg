SPECIFICATION MCSpec
CONSTANT ShowSpec <- WhichSpec
INVARIANTS Tiling InOrder Satisfied Meant Unbroken Documented
PROPERTIES Frozen Progress
CHECK_DEADLOCK FALSE
