SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScOrd6w
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
