SPECIFICATION Spec
CONSTANTS
  Len0 = 4
  Printing = TRUE
INVARIANTS Announced OncePer PendAnnounced Gen

CHECK_DEADLOCK FALSE
