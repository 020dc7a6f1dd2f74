SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS CheckMemory = TRUE
 CheckMap = FALSE
