SPECIFICATION Spec
CONSTANTS MaxLines = 1
 Alphabet <- Few
 Fills = {62, 63, 64}
INVARIANTS AtMost OneByOne OnlyRules EndsIrrelevant WrittenAndRead Refuses Emit
CHECK_DEADLOCK FALSE
