SPECIFICATION Spec
CONSTANTS
  PrintConf <- PrintOldest
  Entries = 3
INVARIANTS PrintedMeansTheSame ValueIsTold
PROPERTIES ReloadKeepsLookups NewestWins
CHECK_DEADLOCK FALSE
