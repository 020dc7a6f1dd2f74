SPECIFICATION Spec
CONSTANTS
  FIELD = {0, 1000}
  CYCLES = 2
  NODES = 3
  ANGLES = {0, 9000, 18100}
  RANGES = {200, 3000, 12000, 12010, 2000000001}
INVARIANTS NothingIsLost TheWayIsConnected EveryClosedNode StrokesConnect PyramidLooksAhead FanIsTheScan MarksInside
CHECK_DEADLOCK FALSE
