SPECIFICATION Spec
CONSTANTS
  Blocks <- Three
  Tracked <- AllRecs
  Window = 2
  MaxLen = 8
  MaxDup = 8
  Names <- NoNames
  Reorgs = TRUE
  Wholes = TRUE
INVARIANTS Refines Remembers Consistent 
VIEW View
CHECK_DEADLOCK FALSE
