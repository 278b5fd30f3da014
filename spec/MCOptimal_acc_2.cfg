SPECIFICATION Spec
CONSTANTS
  TASK = "accuracy"
  M = 2
  F = 2
INVARIANTS TableIsOptimum Monotone DirectIsTable DeepIsEnough
CHECK_DEADLOCK FALSE
