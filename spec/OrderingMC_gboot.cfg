SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScBootu
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
