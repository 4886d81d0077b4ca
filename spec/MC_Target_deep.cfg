SPECIFICATION Spec
CONSTANTS Depth = 4 Rich = TRUE
INVARIANTS OnlyFiles ClimbingIsMissing SpellingIrrelevant DirectName Emit
CHECK_DEADLOCK FALSE
