CONSTANTS Emit = FALSE
 Good = FALSE
 MaxLen = 8
SPECIFICATION Spec
VIEW View
INVARIANT LandingOnlyAfterFound
INVARIANT DecidedWhileLanding
INVARIANT NoPendingReset
INVARIANT ExplorationBounded
INVARIANT SmoothedFromZero
PROPERTY Edges
PROPERTY HoldsPositionWhileLanding
CHECK_DEADLOCK FALSE
