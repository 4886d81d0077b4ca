SPECIFICATION Spec
CONSTANTS Max = 2
 Starts <- AllStarts
 Tokens <- All_
INVARIANTS Classified Sane Emit
PROPERTIES Final Grows
CHECK_DEADLOCK FALSE
