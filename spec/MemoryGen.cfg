CONSTANTS Emit = TRUE
 MaxSteps = 3
 Dirs = {0, 1, 2, 3, 4}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
