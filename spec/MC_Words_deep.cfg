INIT Init
NEXT Next
CONSTANTS
  PrefixLen = 3
  SuffixLen = 4
INVARIANT Conventions
CHECK_DEADLOCK FALSE
