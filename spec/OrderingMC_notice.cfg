SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScNotice4
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines
VIEW View
CHECK_DEADLOCK FALSE
