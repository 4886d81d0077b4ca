SPECIFICATION Spec
CONSTANTS
  L = 5
  MaxRunning = 6
  RuleFile = "/api/b,1,1,5;/api,2,2;/api/x,9,1"
  Urls = {"/api/x", "/api/b", "/other"}
  Ips = {"10.0.0.1", "10.0.0.11"}
INVARIANTS NeverExceeded NobodyRunsAllAdmitted Emit
CHECK_DEADLOCK FALSE
