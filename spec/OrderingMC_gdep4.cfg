SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScDep4
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
