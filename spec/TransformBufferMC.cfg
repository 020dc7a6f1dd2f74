CONSTANTS Pairs = {0, 1}
  Times = {0, 1, 2, 3, 4, 5, 6}
  Size = 3
  Emit = FALSE
  MaxLen = 6
SPECIFICATION Spec
VIEW View
INVARIANT Increasing
INVARIANT SpanBounded
INVARIANT NewestIsMax
INVARIANT OnlyOwn
INVARIANT InterpolationBetween
PROPERTY RefusedChangesNothing
CHECK_DEADLOCK FALSE
