SPECIFICATION Spec
CONSTANTS
  Groups = {0, 1}
  Spaces_ <- FewSpaces
  Keys = {1, 2}
  Stamps = {1, 2}
  Attrs = {0}
  Entries = 2
  GroupSets = {{0}, {1}, {0, 1}}
  DepthSets <- AllDepths
  Prefixes_ <- SomePrefixes
  KeySets = {{1}, {2}, {1, 2}}
  Ranges = {{1}, {2}, {1, 2}}
  AttrSets = {{0}}
  BranchSets <- JustAll
  DbSets <- JustAll
  IndexSets <- JustAll
  Starts = {0}
INVARIANTS Complete NeverBack OnTheWay
CHECK_DEADLOCK FALSE
