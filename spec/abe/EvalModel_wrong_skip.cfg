SPECIFICATION Spec
CONSTANTS
  CallIn <- CallSkip
  Size = 4
  BSize = 3
  Bytes_ = {0, 1, 47, 58, 93, 251}
INVARIANTS GroupingIrrelevant EmptyScopesIrrelevant LaterScopesOnlyAdd ErrorFirst PartsCompose EncodeEvaluatesBack IgnoringOnlyHelps FallbackAlways
CHECK_DEADLOCK FALSE
