SPECIFICATION Spec
CONSTANTS MaxTable = 2 FilterKinds = {0,5}
INVARIANTS IsFirst Stable MethodExact Rebuilds Emit
CHECK_DEADLOCK FALSE
