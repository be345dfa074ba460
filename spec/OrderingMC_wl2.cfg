SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScWl2
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
