SPECIFICATION Spec
CONSTANTS
  L = 5
  MaxRunning = 6
  RuleFile = "/api,2,1,10;"
  Urls = {"/api/x", "/api/b", "/api/p/1"}
  Ips = {"10.0.0.1", "10.0.0.11"}
INVARIANTS NeverExceeded NobodyRunsAllAdmitted Emit
CHECK_DEADLOCK FALSE
