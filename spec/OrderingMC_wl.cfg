SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScWl
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
