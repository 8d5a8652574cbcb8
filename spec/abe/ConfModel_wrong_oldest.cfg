SPECIFICATION Spec
CONSTANTS
  Hits <- HitsOldest
  Entries = 3
INVARIANTS PrintedMeansTheSame ValueIsTold
PROPERTIES ReloadKeepsLookups NewestWins
CHECK_DEADLOCK FALSE
