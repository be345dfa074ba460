CONSTANTS
  MaxTs = 2
  MaxLen = 5
  T = 1
  Design = "newest"
SPECIFICATION Spec
INVARIANTS NothingSkipped
CHECK_DEADLOCK FALSE
