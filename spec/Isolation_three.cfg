SPECIFICATION Spec
CONSTANTS N = 3
 Steps = 2
 Shared = FALSE
INVARIANTS Understood AtTheEnd NotBefore Apart Emit
CHECK_DEADLOCK FALSE
