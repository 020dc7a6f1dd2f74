SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS CheckMemory = FALSE
 CheckMap = TRUE
