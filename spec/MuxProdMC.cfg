CONSTANTS
  Len0 = 4
  Printing = TRUE
SPECIFICATION Spec
INVARIANTS Everywhere Agree LatestOk Gen
CHECK_DEADLOCK FALSE
