SPECIFICATION Spec
CONSTANTS
  Faults = 1
  Skip = TRUE
  Values = {1, 255, 8, 128}

INVARIANTS OnlyHonest Unchanged OneSpelling Asks OrderIsEntryOrder
CHECK_DEADLOCK FALSE
