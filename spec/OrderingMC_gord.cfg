SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScOrd5
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
