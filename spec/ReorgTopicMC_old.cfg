CONSTANTS
  SideBlocks = 2
  FromNewest = TRUE
  ReadyWhenIdle = TRUE
  Printing = FALSE
SPECIFICATION Spec
INVARIANTS InOrder NeverCrashes Gen

CHECK_DEADLOCK FALSE
