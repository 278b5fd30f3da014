CONSTANTS
  Broken = "none"
  D = 2
  TASK = "accuracy"
  SIZES = {1, 2}
  DATA <- One
SPECIFICATION Spec
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims Complete
CHECK_DEADLOCK FALSE
