CONSTANTS
  Broken = "none"
  D = 2
  TASK = "cost-complex-accuracy"
  SIZES = {1, 2}
  DATA <- Many
SPECIFICATION Long
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
