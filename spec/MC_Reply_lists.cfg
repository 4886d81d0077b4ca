SPECIFICATION Spec
CONSTANTS Kinds <- Lists
 Payloads <- Words
 Statuses <- Few
INVARIANTS ReadBack Judged WholeOnly NotTwo Emit
CHECK_DEADLOCK FALSE
