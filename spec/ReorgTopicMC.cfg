CONSTANTS
  SideBlocks = 2
  FromNewest = FALSE
  ReadyWhenIdle = FALSE
  Printing = FALSE
SPECIFICATION Spec
INVARIANTS InOrder NeverCrashes Gen
PROPERTIES EverythingArrives
CHECK_DEADLOCK FALSE
