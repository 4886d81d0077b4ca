SPECIFICATION Spec
CONSTANTS MaxOps = 6
VIEW View
INVARIANTS Parents LastWrite
PROPERTIES Emitted
CHECK_DEADLOCK FALSE
