SPECIFICATION Spec
CONSTANTS
  Blocks <- Mixed
  Tracked <- SomeRecs
  Window = 2
  MaxLen = 11
  MaxDup = 2
  Names <- NoNames
  Reorgs = FALSE
  Wholes = FALSE
INVARIANTS Refines Remembers Consistent 
VIEW View
CHECK_DEADLOCK FALSE
