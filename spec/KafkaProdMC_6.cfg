CONSTANTS
  Len0 = 6
  Printing = FALSE
SPECIFICATION Spec
INVARIANTS OnceBetweenPurges Announced Gen
CHECK_DEADLOCK FALSE
