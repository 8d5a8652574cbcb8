SPECIFICATION Spec
CONSTANTS
  LowestFrom <- LowestWithKey
  Groups = {0}
  Spaces_ <- FewSpaces
  Keys = {1, 2}
  Stamps = {1, 2}
  Attrs = {0}
  Entries = 2
  GroupSets = {{0}}
  DepthSets <- AllDepths
  Prefixes_ <- SomePrefixes
  KeySets = {{1}, {2}, {1, 2}}
  Ranges = {{1}, {2}, {1, 2}}
  AttrSets = {{0}}
  BranchSets <- JustAll
  DbSets <- JustAll
  IndexSets <- JustAll
  Starts = {0}
INVARIANTS Complete NeverBack OnTheWay
CHECK_DEADLOCK FALSE
