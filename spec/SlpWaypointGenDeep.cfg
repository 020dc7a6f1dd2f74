CONSTANTS Emit = TRUE
 Good = FALSE
 MaxLen = 10
SPECIFICATION Spec
VIEW GenView
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
