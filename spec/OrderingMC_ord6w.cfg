SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScOrd6w
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
