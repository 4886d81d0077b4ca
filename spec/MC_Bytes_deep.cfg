SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANT Agree
CHECK_DEADLOCK FALSE
