SPECIFICATION Spec
INVARIANT Straight
INVARIANT NoOvershoot
INVARIANT StaysDirect
INVARIANT Arrives
INVARIANT HeadingFrozen
PROPERTY AdaptedWithinSpeed
PROPERTY AdaptedAhead
PROPERTY SpeedFiltered
CHECK_DEADLOCK FALSE
