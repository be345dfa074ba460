CONSTANTS
  N = 3
  Cuts = 2
  Instant = TRUE
  GapFill = TRUE
  LiveFirst = FALSE
  Naive = FALSE
  KeepParts = FALSE
  Printing = TRUE
SPECIFICATION Spec
INVARIANTS ResumeSafe NoPartial Arrived Gen
CHECK_DEADLOCK FALSE
