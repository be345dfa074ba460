SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScOrd5u
  MaxDup = 1
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
