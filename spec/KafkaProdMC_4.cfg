CONSTANTS
  Len0 = 4
  Printing = TRUE
SPECIFICATION Spec
INVARIANTS OnceBetweenPurges Announced Gen
CHECK_DEADLOCK FALSE
