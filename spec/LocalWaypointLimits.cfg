SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS CheckMode = FALSE
 CheckLimits = TRUE
