SPECIFICATION Spec
CONSTANTS
  Scenarios <- ScBoot
  MaxDup = 1
  Printing = FALSE
INVARIANTS Refines 
VIEW View
CHECK_DEADLOCK FALSE
