CONSTANTS
  N = 3
  MaxCrash = 2
  Weights = {1, 2}
  Rollback = TRUE
SPECIFICATION Spec
INVARIANTS TokenBringsBack Caught
CHECK_DEADLOCK FALSE
