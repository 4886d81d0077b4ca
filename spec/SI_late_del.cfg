SPECIFICATION Spec
CONSTANTS
  N = 4
  W = 2
  Cap = 1
  Configs = {"f"}
  Bug = "late_del"
  Spurious = FALSE
  Fails = 0
INVARIANTS RunningLimit
CHECK_DEADLOCK FALSE
