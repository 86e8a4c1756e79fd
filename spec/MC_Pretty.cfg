SPECIFICATION MCSpec
INVARIANTS WholeLines Printed ReprReads
PROPERTIES Growing
CHECK_DEADLOCK FALSE
