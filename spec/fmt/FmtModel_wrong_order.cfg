SPECIFICATION Spec
CONSTANTS
  LexLt <- LexRev
  Width = 2
  Sample = {0, 1, 57, 127, 128, 254, 255}
INVARIANTS OrderIsNumeric AddIsExact SubIsExact TextIsExact BothOrders Bitwise Base64 Injective Padding PaddingEnd AbText Expressions
CHECK_DEADLOCK FALSE
