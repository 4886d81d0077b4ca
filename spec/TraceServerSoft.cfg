SPECIFICATION Spec
CONSTANT Soft = TRUE
CHECK_DEADLOCK FALSE
