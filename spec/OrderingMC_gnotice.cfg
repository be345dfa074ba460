SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScNotice4
  MaxDup = 0
  Printing = TRUE
INVARIANTS Refines Gen

CHECK_DEADLOCK FALSE
