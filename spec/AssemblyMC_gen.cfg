SPECIFICATION Spec
CONSTANTS
  Blocks <- Full1
  Tracked <- AllRecs
  Window = 8
  MaxLen = 7
  MaxDup = 1
  Names <- Names1
  Reorgs = FALSE
  Wholes = FALSE
INVARIANTS Refines Remembers Consistent Gen

CHECK_DEADLOCK FALSE
