CONSTANTS
  SideBlocks = 2
  FromNewest = FALSE
  ReadyWhenIdle = FALSE
  Printing = TRUE
SPECIFICATION Spec
INVARIANTS InOrder NeverCrashes Gen

CHECK_DEADLOCK FALSE
