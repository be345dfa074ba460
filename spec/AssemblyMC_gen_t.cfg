SPECIFICATION Spec
CONSTANTS
  Blocks <- Full1
  Tracked <- AllRecs
  Window = 8
  MaxLen = 8
  MaxDup = 2
  Names <- Names1
  Reorgs = FALSE
  Wholes = FALSE
INVARIANTS Refines Remembers Consistent Gen

CHECK_DEADLOCK FALSE
