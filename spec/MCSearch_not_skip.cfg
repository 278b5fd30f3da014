CONSTANTS
  Broken = "skip"
  D = 2
  TASK = "accuracy"
  SIZES = {1}
  DATA <- Many
SPECIFICATION Spec
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
