SPECIFICATION Spec
CONSTANTS
  Faults = 1
  Skip = FALSE
  Values = {1, 255, 8, 128}
  SpaceOrder <- ByBytes
INVARIANTS OnlyHonest Unchanged OneSpelling Asks OrderIsEntryOrder
CHECK_DEADLOCK FALSE
