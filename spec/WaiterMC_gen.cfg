SPECIFICATION Spec
CONSTANTS
  Blocks <- Two
  Fixed = TRUE
  MaxOps = 5
  MaxWaits = 2
  MaxApp = 2
  Printing = TRUE
INVARIANTS Exact Later Gen

CHECK_DEADLOCK FALSE
