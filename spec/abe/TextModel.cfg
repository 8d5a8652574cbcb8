SPECIFICATION Spec
CONSTANTS
  Size = 5
  Letters = {97, 92, 58, 47, 91, 93, 120, 48, 10, 200}
INVARIANTS ReadsExactlyTheBalanced PrintThenRead LaxAddsOnly EscapeThenRead EscapedIsPlain DecodesItsOwn DecodeIsOnePart ComponentsCover ComponentsAreFlat ValuesPrint
CHECK_DEADLOCK FALSE
