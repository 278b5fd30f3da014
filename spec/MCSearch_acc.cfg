CONSTANTS
  Broken = "none"
  D = 2
  TASK = "accuracy"
  SIZES = {1, 2}
  DATA <- Every
SPECIFICATION Long
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
