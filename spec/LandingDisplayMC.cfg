SPECIFICATION Spec
CONSTANTS
  SIDES = {2, 3}
  CELLS = {100, 250}
  SMOOTH = {0, 1, 5}
  THRESHOLDS = {0, 1, 200}
  SPREADS = {0, 1, 60, 133, 200, 201}
  MINIMA = {0, 100, 400, 450}
  COUNTS = {0, 99, 100, 250, 399, 400, 600}
INVARIANTS Tiles GreenMeansLand Colours Tell Block
CHECK_DEADLOCK FALSE
