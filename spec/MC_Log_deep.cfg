SPECIFICATION Spec
CONSTANTS MaxOps = 4 Levels = {0, 2, 4, 5}
INVARIANTS Accepts NoLess NoMore Emit
CHECK_DEADLOCK FALSE
