SPECIFICATION Spec
CONSTANTS
  Len0 = 5
  Printing = TRUE
INVARIANTS Announced OncePer PendAnnounced Gen

CHECK_DEADLOCK FALSE
