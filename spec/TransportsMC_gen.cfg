CONSTANTS
  MaxTs = 0
  MaxLen = 1
  T = 1
  Design = "gen"
SPECIFICATION Spec
INVARIANTS NothingSkipped
CHECK_DEADLOCK FALSE
