SPECIFICATION Spec
CONSTANTS
  N = 4
  W = 2
  Cap = 2
  Configs = {"a", "b", "c"}
  Bug = "none"
  Spurious = FALSE
  Fails = 0
INVARIANTS Inv MutualExclusion RunningLimit TakenOnce TakenReal NobodyKept NobodySleeps
PROPERTIES Refines RefusedJustly
CHECK_DEADLOCK FALSE
