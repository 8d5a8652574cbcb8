SPECIFICATION Spec
CONSTANTS
  Groups = {0}
  Spaces_ <- NoSpace
  Keys = {1, 2}
  Stamps = {1, 2}
  Attrs = {0, 1}
  Entries = 5
  GroupSets = {{0}}
  DepthSets = {{0}}
  Prefixes_ <- NoPrefix
  KeySets = {{1, 2}}
  Ranges = {{2}, {1, 2}}
  AttrSets = {{0}, {1}, {0, 1}}
  BranchSets <- OneOrAll
  DbSets <- OneOrAll
  IndexSets <- LowOrAll
  Starts = {0, 1}
INVARIANTS Complete NeverBack OnTheWay
CHECK_DEADLOCK FALSE
