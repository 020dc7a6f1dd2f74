CONSTANTS Pairs = {0, 1}
  Times = {0, 1, 2, 3, 4, 5}
  Size = 3
  Emit = TRUE
  MaxLen = 5
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
