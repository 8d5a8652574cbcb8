SPECIFICATION Spec
CONSTANTS
  ReplaceB <- ReplaceFirst
  Sample = {0, 1, 255}
  Longest = 3
  Num = {0, 1, 2, 3, 5, 300}
INVARIANTS SliceIsASelection SliceBackwards SliceAll SliceJoin PadThenCut FixedIsFixed CutIsPrefix ReplaceRemoves Sums SumsRefuse Numbers SizeTest ValTest
CHECK_DEADLOCK FALSE
