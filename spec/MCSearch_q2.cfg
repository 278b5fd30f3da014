CONSTANTS
  Broken = "none"
  D = 2
  TASK = "cost-complex-accuracy"
  SIZES = {2}
  DATA <- One
SPECIFICATION Spec
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
