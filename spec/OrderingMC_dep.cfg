SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScDep
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
