CONSTANTS
  Parts = 3
  MaxLen = 2
  Ahead = 1
  EarlyBarrier = FALSE
  EmptyWaits = FALSE
  MaxAdd = 1
SPECIFICATION Spec
INVARIANTS TypeOK ReadyCaughtUp BarrierHolds
PROPERTY EventuallyReady
CHECK_DEADLOCK FALSE
