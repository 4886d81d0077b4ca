SPECIFICATION Spec
CONSTANTS MaxLen = 6 Chars = {107, 109, 61, 44, 32, 10}
INVARIANTS RoundTrip OnlyKnown AllDelivered Emit
CHECK_DEADLOCK FALSE
