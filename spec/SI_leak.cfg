SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Cap = 1
  Configs = {"a"}
  Bug = "leak"
  Spurious = FALSE
  Fails = 0
PROPERTIES RefusedJustly
CHECK_DEADLOCK FALSE
