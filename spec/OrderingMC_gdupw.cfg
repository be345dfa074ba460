SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScOrd5
  MaxDup = 1
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
