SPECIFICATION Spec
CONSTANTS MaxLines = 2
 Alphabet <- Many
 Fills = {0}
INVARIANTS AtMost OneByOne OnlyRules EndsIrrelevant WrittenAndRead Refuses Emit
CHECK_DEADLOCK FALSE
