SPECIFICATION Spec
INVARIANT FartherIsCheaper
INVARIANT HalfWay
INVARIANT GoalIsBest
INVARIANT Monotone
INVARIANT NearIsStronger
INVARIANT VelocityBounds
INVARIANT Seam
INVARIANT Peak
INVARIANT Spread
INVARIANT SamePoint
CHECK_DEADLOCK FALSE
