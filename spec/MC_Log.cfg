SPECIFICATION Spec
CONSTANTS MaxOps = 3 Levels = {0, 1, 2, 3, 4, 5}
INVARIANTS Accepts NoLess NoMore Emit
CHECK_DEADLOCK FALSE
