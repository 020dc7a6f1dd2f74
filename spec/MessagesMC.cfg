CONSTANTS Emit = FALSE
SPECIFICATION Spec
INVARIANT ValidIffUsable
INVARIANT LandingSetpointsUsable
CHECK_DEADLOCK FALSE
