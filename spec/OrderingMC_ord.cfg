SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScOrd5
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
