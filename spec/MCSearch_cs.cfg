CONSTANTS
  Broken = "none"
  D = 2
  TASK = "cost-sensitive"
  SIZES = {1}
  DATA <- Twins
SPECIFICATION Long
INVARIANTS BoundsTrue TreesTrue OptimaTrue Claims
CHECK_DEADLOCK FALSE
