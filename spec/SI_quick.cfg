SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Cap = 1
  Configs = {"b"}
  Bug = "none"
  Spurious = FALSE
  Fails = 0
INVARIANTS Inv MutualExclusion RunningLimit TakenOnce TakenReal NobodyKept NobodySleeps
PROPERTIES Refines RefusedJustly
CHECK_DEADLOCK FALSE
