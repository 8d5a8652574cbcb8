SPECIFICATION Spec
CONSTANTS
  Faults = 2
  Skip = FALSE
  Values = {8}
  BodyOk <- NoLinkSize
INVARIANTS OnlyHonest Unchanged OneSpelling Asks OrderIsEntryOrder
CHECK_DEADLOCK FALSE
