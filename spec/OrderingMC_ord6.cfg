SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScOrd6
  MaxDup = 0
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
