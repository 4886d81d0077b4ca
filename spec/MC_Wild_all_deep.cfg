SPECIFICATION Spec
CONSTANTS Max = 3
 Starts <- AllStarts
 Tokens <- All_
INVARIANTS Classified Sane Emit
PROPERTIES Final Grows
CHECK_DEADLOCK FALSE
