SPECIFICATION Spec
CONSTANTS MaxLen = 3 Chars = {97, 34, 92, 10, 31, 117} MaxList = 2
INVARIANTS RoundTrip Truncated Unescaped Emit
CHECK_DEADLOCK FALSE
