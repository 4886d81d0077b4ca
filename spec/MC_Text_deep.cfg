SPECIFICATION Spec
CONSTANTS MaxLen = 6 Chars = {97, 44, 32, 66, 34, 200}
INVARIANTS SplitIsPieces OnceIsFirst TrimIsInner FindIsFirst Emit
CHECK_DEADLOCK FALSE
