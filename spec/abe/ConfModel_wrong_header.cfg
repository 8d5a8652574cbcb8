SPECIFICATION Spec
CONSTANTS
  PrintConf <- PrintNoHeader
  Entries = 3
INVARIANTS PrintedMeansTheSame ValueIsTold
PROPERTIES ReloadKeepsLookups NewestWins
CHECK_DEADLOCK FALSE
