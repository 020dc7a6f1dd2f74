CONSTANTS Emit = TRUE
 MaxLen = 12
SPECIFICATION Spec
VIEW GenView
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
