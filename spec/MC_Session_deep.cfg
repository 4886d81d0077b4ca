SPECIFICATION Spec
CONSTANTS MaxHdrs = 2
 Values_ <- FullValues
 Cookies_ <- FullCookies
INVARIANTS ReadBack Some_ NotInvented DecoysIrrelevant CaseIrrelevant OrderIrrelevant HeadersFirst Emit
CHECK_DEADLOCK FALSE
