SPECIFICATION Spec
CONSTANTS
  N = 2
  W = 1
  Cap = 1
  Configs = {"e"}
  Bug = "fatal"
  Spurious = FALSE
  Fails = 1
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
