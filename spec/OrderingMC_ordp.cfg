SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScOrd5p
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
