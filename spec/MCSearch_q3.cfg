CONSTANTS
  Broken = "none"
  D = 2
  TASK = "cost-complex-accuracy"
  SIZES = {1}
  DATA <- Same2
SPECIFICATION Spec
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
