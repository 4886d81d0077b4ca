SPECIFICATION Spec
CONSTANTS Depth = 4 Rich = FALSE
INVARIANTS OnlyFiles ClimbingIsMissing SpellingIrrelevant DirectName Emit
CHECK_DEADLOCK FALSE
