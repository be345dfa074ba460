SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScFresh
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
