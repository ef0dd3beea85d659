INIT Init
NEXT Next
CONSTANTS
  PrefixLen = 3
  SuffixLen = 3
INVARIANTS Laws PairLaws
CHECK_DEADLOCK FALSE
