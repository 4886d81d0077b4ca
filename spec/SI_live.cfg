SPECIFICATION Spec
CONSTANTS
  N = 2
  W = 2
  Cap = 1
  Configs = {"a", "b", "d"}
  Bug = "none"
  Spurious = TRUE
  Fails = 1
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
