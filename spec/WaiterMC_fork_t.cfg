SPECIFICATION Spec
CONSTANTS
  Blocks <- Fork
  Fixed = TRUE
  MaxOps = 9
  MaxWaits = 3
  MaxApp = 3
  Printing = FALSE
INVARIANTS Exact Later
VIEW View
CHECK_DEADLOCK FALSE
