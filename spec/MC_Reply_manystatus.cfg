SPECIFICATION Spec
CONSTANTS Kinds <- WithStatus
 Payloads <- Words
 Statuses <- ManyStatus
INVARIANTS ReadBack Judged WholeOnly NotTwo Emit
CHECK_DEADLOCK FALSE
