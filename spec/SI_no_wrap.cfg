SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 1
  Cap = 2
  Configs = {"e"}
  Bug = "no_wrap"
  Spurious = FALSE
  Fails = 0
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
