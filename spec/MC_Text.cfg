SPECIFICATION Spec
CONSTANTS MaxLen = 5 Chars = {97, 44, 32, 66}
INVARIANTS SplitIsPieces OnceIsFirst TrimIsInner FindIsFirst Emit
CHECK_DEADLOCK FALSE
