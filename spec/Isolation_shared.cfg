SPECIFICATION Spec
CONSTANTS N = 2
 Steps = 2
 Shared = TRUE
INVARIANTS Understood AtTheEnd NotBefore Apart 
CHECK_DEADLOCK FALSE
