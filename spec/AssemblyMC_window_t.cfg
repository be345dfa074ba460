SPECIFICATION Spec
CONSTANTS
  Blocks <- Three
  Tracked <- AllRecs
  Window = 2
  MaxLen = 10
  MaxDup = 10
  Names <- NoNames
  Reorgs = TRUE
  Wholes = TRUE
INVARIANTS Refines Remembers Consistent 
VIEW View
CHECK_DEADLOCK FALSE
