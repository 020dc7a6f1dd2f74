SPECIFICATION Spec
CONSTANTS
MaxLen = 6
Turning = 20
Box <- Both
INVARIANTS Faithful Stable Kept Cheaper Corner YawsEnd
CHECK_DEADLOCK FALSE
