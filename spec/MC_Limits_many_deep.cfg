SPECIFICATION Spec
CONSTANTS MaxLines = 2
 Alphabet <- Few
 Fills = {62, 63}
INVARIANTS AtMost OneByOne OnlyRules EndsIrrelevant WrittenAndRead Refuses Emit
CHECK_DEADLOCK FALSE
