CONSTANTS Emit = FALSE
 MaxLen = 30
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT LoiterHonoured
INVARIANT LandingKeepsHeightMode
PROPERTY Edges
PROPERTY LoiterLeft
PROPERTY OffboardOnce
PROPERTY NoClimbOnceReached
PROPERTY LandPhaseControls
PROPERTY HoldsPosition
PROPERTY FreshPathFollowed
CHECK_DEADLOCK FALSE
