SPECIFICATION Spec
CONSTANT Soft = FALSE
CHECK_DEADLOCK FALSE
