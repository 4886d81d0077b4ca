SPECIFICATION Spec
CONSTANTS Max = 4
 Starts <- NoStart
 Tokens <- Core_
INVARIANTS Classified Sane Emit
PROPERTIES Final Grows
CHECK_DEADLOCK FALSE
