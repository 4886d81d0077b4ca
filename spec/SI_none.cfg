SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Cap = 1
  Configs = {"a", "b", "c", "d"}
  Bug = "none"
  Spurious = TRUE
  Fails = 1
INVARIANTS Inv MutualExclusion RunningLimit TakenOnce TakenReal NobodyKept NobodySleeps
PROPERTIES Refines RefusedJustly
CHECK_DEADLOCK FALSE
