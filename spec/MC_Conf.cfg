SPECIFICATION Spec
CONSTANTS MaxLen = 5 Chars = {107, 109, 61, 44, 32, 10}
INVARIANTS RoundTrip OnlyKnown AllDelivered Emit
CHECK_DEADLOCK FALSE
