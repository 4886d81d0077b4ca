SPECIFICATION Spec
CONSTANTS
  L = 4
  MaxRunning = 6
  RuleFile = "/api/x,3,2;/api/xy,1,1;"
  Urls = {"/api/x", "/api/xy", "/API/x"}
  Ips = {"10.0.0.1", "10.0.0.11"}
INVARIANTS NeverExceeded NobodyRunsAllAdmitted Emit
CHECK_DEADLOCK FALSE
