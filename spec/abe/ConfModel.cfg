SPECIFICATION Spec
CONSTANTS
  Entries = 3
INVARIANTS PrintedMeansTheSame ValueIsTold
PROPERTIES ReloadKeepsLookups NewestWins
CHECK_DEADLOCK FALSE
