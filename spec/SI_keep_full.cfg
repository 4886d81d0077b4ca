SPECIFICATION Spec
CONSTANTS
  N = 4
  W = 1
  Cap = 1
  Configs = {"e"}
  Bug = "keep_full"
  Spurious = FALSE
  Fails = 0
INVARIANTS NobodyKept
CHECK_DEADLOCK FALSE
