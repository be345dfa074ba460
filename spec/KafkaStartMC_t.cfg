CONSTANTS
  Parts = 3
  MaxLen = 3
  Ahead = 1
  EarlyBarrier = FALSE
  EmptyWaits = FALSE
  MaxAdd = 2
SPECIFICATION Spec
INVARIANTS TypeOK ReadyCaughtUp BarrierHolds
PROPERTY EventuallyReady
CHECK_DEADLOCK FALSE
