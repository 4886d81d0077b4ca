SPECIFICATION Spec
CONSTANTS L = 6 MaxConns = 3 Kinds = {"api4", "held4", "held9", "free"} Ticks = {2, 7} Slack = 3
INVARIANTS NoRuleNoDrop Emit
PROPERTIES Early
CHECK_DEADLOCK FALSE
