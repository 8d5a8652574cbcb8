SPECIFICATION Spec
CONSTANTS
  Width = 3
  Sample = {0, 1, 128, 255}
INVARIANTS OrderIsNumeric AddIsExact SubIsExact TextIsExact BothOrders Bitwise Base64 Injective Padding PaddingEnd AbText Expressions
CHECK_DEADLOCK FALSE
