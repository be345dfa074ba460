SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScNotice5
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
