SPECIFICATION Spec
CONSTANTS
  N = 2
  W = 2
  Cap = 2
  Configs = {"e"}
  Bug = "signal_empty"
  Spurious = FALSE
  Fails = 0
INVARIANTS NobodySleeps
CHECK_DEADLOCK FALSE
