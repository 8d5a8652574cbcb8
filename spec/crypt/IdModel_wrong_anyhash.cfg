SPECIFICATION Spec
CONSTANTS
  Verify <- VerifyAnyHash
  Names = {"s1", "s2"}
  Pws = {"p", "q"}
  Costs = {"c", "d"}
  MaxTexts = 3
INVARIANTS OpensToItsKey NothingElseOpens OnlyMadeSignatures
CHECK_DEADLOCK FALSE
