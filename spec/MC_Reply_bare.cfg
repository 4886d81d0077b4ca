SPECIFICATION Spec
CONSTANTS Kinds <- Bare
 Payloads <- Words
 Statuses <- One
INVARIANTS ReadBack Judged WholeOnly NotTwo Emit
CHECK_DEADLOCK FALSE
