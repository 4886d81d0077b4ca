SPECIFICATION Spec
CONSTANTS MaxUnits = 3
INVARIANTS OrderFree ServesUnlessEnded LastRootCounts NoRootGiven PlainOnlyWhenAsked DebugOnlyWhenAsked PortIsLast EndedFirst Missing Emit
CHECK_DEADLOCK FALSE
