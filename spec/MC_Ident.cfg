INIT Init
NEXT Next
CONSTANTS
  PrefixLen = 3
  SuffixLen = 2
INVARIANTS Laws PairLaws
CHECK_DEADLOCK FALSE
