SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Cap = 1
  Configs = {"e"}
  Bug = "if"
  Spurious = TRUE
  Fails = 0
INVARIANTS TakenOnce TakenReal
CHECK_DEADLOCK FALSE
