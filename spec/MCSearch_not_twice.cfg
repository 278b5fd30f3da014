CONSTANTS
  Broken = "twice"
  D = 2
  TASK = "cost-complex-accuracy"
  SIZES = {1}
  DATA <- Many
SPECIFICATION Spec
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
