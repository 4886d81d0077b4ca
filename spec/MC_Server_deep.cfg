SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Cap = 1
  Configs = {"a", "b", "c", "d"}
INVARIANTS TypeOK ServedInOrder ServedOnce OpenApart ClosedAtTheEnd ClosedThenIdle LimitsHeld RunningCounts OnlyInProgressCount CapacityRestored
PROPERTIES RefusedJustly AllEnd AllFree
CHECK_DEADLOCK FALSE
