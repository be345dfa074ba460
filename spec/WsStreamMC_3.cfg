CONSTANTS
  N = 3
  Cuts = 1
  Instant = FALSE
  GapFill = TRUE
  LiveFirst = FALSE
  Naive = FALSE
  KeepParts = FALSE
  Printing = FALSE
SPECIFICATION Spec
INVARIANTS ResumeSafe NoPartial Arrived
CHECK_DEADLOCK FALSE
