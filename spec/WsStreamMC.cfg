CONSTANTS
  N = 2
  Cuts = 2
  Instant = FALSE
  GapFill = TRUE
  LiveFirst = FALSE
  Naive = FALSE
  KeepParts = FALSE
  Printing = FALSE
SPECIFICATION Live
INVARIANTS ResumeSafe NoPartial Arrived
PROPERTIES Progress
CHECK_DEADLOCK FALSE
