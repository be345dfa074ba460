SPECIFICATION Spec
CONSTANTS
  Blocks <- Fork
  Fixed = FALSE
  MaxOps = 6
  MaxWaits = 2
  MaxApp = 2
  Printing = FALSE
INVARIANTS Exact Later
VIEW View
CHECK_DEADLOCK FALSE
