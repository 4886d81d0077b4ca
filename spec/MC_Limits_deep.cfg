SPECIFICATION Spec
CONSTANTS MaxLines = 3
 Alphabet <- Few
 Fills = {0}
INVARIANTS AtMost OneByOne OnlyRules EndsIrrelevant WrittenAndRead Refuses Emit
CHECK_DEADLOCK FALSE
