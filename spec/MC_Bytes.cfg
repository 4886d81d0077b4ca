SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANT Agree
CHECK_DEADLOCK FALSE
