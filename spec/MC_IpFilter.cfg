SPECIFICATION Spec
CONSTANTS MaxLines = 2
INVARIANTS ClosedWithoutLists DenyWins NobodyWithoutListing OpenByDefault LastLineEndIrrelevant Emit
CHECK_DEADLOCK FALSE
