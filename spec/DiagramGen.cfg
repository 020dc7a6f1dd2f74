SPECIFICATION Spec
CONSTANTS Names = {"A", "B"}
Trans = {"NEXT1", "NEXT2", "ERROR"}
MaxMaps = 2
INVARIANTS Show
CHECK_DEADLOCK FALSE
