SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScWl
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
