SPECIFICATION Spec
CONSTANTS L = 4 MaxConns = 2 Kinds = {"api4", "held4", "static4", "held9", "free", "held0"} Ticks = {2, 7} Slack = 3
INVARIANTS NoRuleNoDrop Emit
PROPERTIES Early Late
CHECK_DEADLOCK FALSE
