SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScFresh6
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
