SPECIFICATION Spec
CONSTANTS Max = 5
 Starts <- NoStart
 Tokens <- Core_
INVARIANTS Classified Sane Emit
PROPERTIES Final Grows
CHECK_DEADLOCK FALSE
