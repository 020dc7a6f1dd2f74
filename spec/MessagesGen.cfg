CONSTANTS Emit = TRUE
SPECIFICATION Spec
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
