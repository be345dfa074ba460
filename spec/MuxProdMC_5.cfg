CONSTANTS
  Len0 = 5
  Printing = TRUE
SPECIFICATION Spec
INVARIANTS Everywhere Agree LatestOk Gen
CHECK_DEADLOCK FALSE
