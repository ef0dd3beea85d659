INIT Init
NEXT Next
CONSTANTS
  MaxActs = 4
  MaxIssues = 2
INVARIANTS InOrder Stops Complete RunsAll
CHECK_DEADLOCK FALSE
