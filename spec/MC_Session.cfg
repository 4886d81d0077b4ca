SPECIFICATION Spec
CONSTANTS MaxHdrs = 2
 Values_ <- SomeValues
 Cookies_ <- SomeCookies
INVARIANTS ReadBack Some_ NotInvented DecoysIrrelevant CaseIrrelevant OrderIrrelevant HeadersFirst Emit
CHECK_DEADLOCK FALSE
