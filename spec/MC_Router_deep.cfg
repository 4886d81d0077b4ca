SPECIFICATION Spec
CONSTANTS MaxTable = 3 FilterKinds = {0}
INVARIANTS IsFirst Stable MethodExact Rebuilds Emit
CHECK_DEADLOCK FALSE
