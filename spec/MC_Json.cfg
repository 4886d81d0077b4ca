SPECIFICATION Spec
CONSTANTS MaxLen = 2 Chars = {97, 34, 92, 10, 195} MaxList = 2
INVARIANTS RoundTrip Truncated Unescaped Emit
CHECK_DEADLOCK FALSE
