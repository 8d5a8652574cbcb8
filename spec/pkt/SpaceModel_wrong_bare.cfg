SPECIFICATION Spec
CONSTANTS
  EncSpace <- EncBare
  MaxDepth <- SmallDepth
  MaxComp <- SmallComp
  MaxSpace <- SmallSpace
  Sample <- SampleSet
  Junk = {0, 1, 2, 3, 255}
INVARIANTS Lossless Canonical PrefixIsComponents OrderIsComponents Strict Limits Texts Expressions
CHECK_DEADLOCK FALSE
