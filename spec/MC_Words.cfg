INIT Init
NEXT Next
CONSTANTS
  PrefixLen = 3
  SuffixLen = 2
INVARIANT Conventions
CHECK_DEADLOCK FALSE
