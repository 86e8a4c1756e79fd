SPECIFICATION MCSpec
INVARIANTS Tiling InOrder Satisfied Meant Unbroken
PROPERTIES Frozen Progress
CHECK_DEADLOCK FALSE
