SPECIFICATION Spec
CONSTANTS Kinds <- Plain
 Payloads <- Confusing
 Statuses <- One
INVARIANTS ReadBack Judged WholeOnly NotTwo Emit
CHECK_DEADLOCK FALSE
