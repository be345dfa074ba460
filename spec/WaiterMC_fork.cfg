SPECIFICATION Spec
CONSTANTS
  Blocks <- Fork
  Fixed = TRUE
  MaxOps = 7
  MaxWaits = 2
  MaxApp = 2
  Printing = FALSE
INVARIANTS Exact Later
VIEW View
CHECK_DEADLOCK FALSE
