SPECIFICATION Spec
CONSTANTS MaxLen = 6
Turning = 0
Box <- Tall
INVARIANTS Faithful Stable Kept Cheaper Corner YawsEnd
CHECK_DEADLOCK FALSE
