CONSTANTS
  Broken = "leafsize"
  D = 2
  TASK = "accuracy"
  SIZES = {2}
  DATA <- Every
SPECIFICATION Spec
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
