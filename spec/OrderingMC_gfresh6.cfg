SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScFresh6
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
