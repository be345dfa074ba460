SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScFresh
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
