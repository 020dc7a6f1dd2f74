SPECIFICATION Spec
INVARIANT Definite
INVARIANT NeverBelowMinimum
INVARIANT OnlyRealObstacles
INVARIANT CloserNeverHidden
INVARIANT AllRound
INVARIANT NoCamera
INVARIANT Width
INVARIANT SectorsArePermuted
INVARIANT NorthFirst
CHECK_DEADLOCK FALSE
