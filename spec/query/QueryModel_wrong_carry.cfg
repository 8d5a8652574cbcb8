SPECIFICATION Spec
CONSTANTS
  NextOfMask <- NextCarry
  Base <- TwoDigits
  Width_ <- OneBit
  Bits = 3
  Rules = 2
INVARIANTS Contradictions Members NextMember Single Reread Commutes
CHECK_DEADLOCK FALSE
