CONSTANT Emit = TRUE
SPECIFICATION Spec
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
