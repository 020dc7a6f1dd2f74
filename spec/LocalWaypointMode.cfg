SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS CheckMode = TRUE
 CheckLimits = FALSE
