SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScDep
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
