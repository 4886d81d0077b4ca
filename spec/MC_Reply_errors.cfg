SPECIFICATION Spec
CONSTANTS Kinds <- Errors
 Payloads <- Escapes
 Statuses <- One
INVARIANTS ReadBack Judged WholeOnly NotTwo Emit
CHECK_DEADLOCK FALSE
