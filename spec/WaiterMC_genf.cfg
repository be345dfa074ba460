SPECIFICATION Spec
CONSTANTS
  Blocks <- Fork
  Fixed = TRUE
  MaxOps = 4
  MaxWaits = 2
  MaxApp = 1
  Printing = TRUE
INVARIANTS Exact Later Gen

CHECK_DEADLOCK FALSE
