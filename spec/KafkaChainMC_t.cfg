CONSTANTS
  N = 4
  MaxCrash = 1
  Weights = {1, 2}
  Rollback = TRUE
SPECIFICATION Spec
INVARIANTS TokenBringsBack Caught
CHECK_DEADLOCK FALSE
