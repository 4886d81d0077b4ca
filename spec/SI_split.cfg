SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Cap = 1
  Configs = {"a"}
  Bug = "split"
  Spurious = FALSE
  Fails = 0
INVARIANTS RunningLimit
CHECK_DEADLOCK FALSE
