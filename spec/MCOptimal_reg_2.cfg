SPECIFICATION Spec
CONSTANTS
  TASK = "regression"
  M = 2
  F = 2
INVARIANTS TableIsOptimum Monotone DirectIsTable DeepIsEnough
CHECK_DEADLOCK FALSE
