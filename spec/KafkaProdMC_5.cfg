CONSTANTS
  Len0 = 5
  Printing = TRUE
SPECIFICATION Spec
INVARIANTS OnceBetweenPurges Announced Gen
CHECK_DEADLOCK FALSE
