CONSTANTS
  Broken = "share"
  D = 2
  TASK = "cost-sensitive"
  SIZES = {1}
  DATA <- Twins
SPECIFICATION Spec
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
