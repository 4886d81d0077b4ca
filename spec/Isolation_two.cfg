SPECIFICATION Spec
CONSTANTS N = 2
 Steps = 4
 Shared = FALSE
INVARIANTS Understood AtTheEnd NotBefore Apart Emit
CHECK_DEADLOCK FALSE
