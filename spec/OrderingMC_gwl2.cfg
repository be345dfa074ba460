SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScWl2
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
