SPECIFICATION Spec
CONSTANTS
  TASK = "f1-score"
  M = 1
  F = 2
INVARIANTS TableIsOptimum Monotone DirectIsTable DeepIsEnough
CHECK_DEADLOCK FALSE
