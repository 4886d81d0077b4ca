SPECIFICATION Spec
CONSTANTS Kinds <- WithStatus
 Payloads <- Confusing
 Statuses <- AllStatus
INVARIANTS ReadBack Judged WholeOnly NotTwo Emit
CHECK_DEADLOCK FALSE
