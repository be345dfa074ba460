CONSTANTS
  MaxTs = 3
  MaxLen = 7
  T = 2
  Design = "newest"
SPECIFICATION Spec
INVARIANTS NothingSkipped
CHECK_DEADLOCK FALSE
