SPECIFICATION Spec
CONSTANTS MaxSegs = 3
 Wanted = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
INVARIANTS NeverEarly ReaderAgrees SameRequest WholeComplete NothingLost Emit
PROPERTIES Settles Once
CHECK_DEADLOCK FALSE
