SPECIFICATION Spec
CONSTANTS
  TASK = "cost-complex-accuracy"
  M = 2
  F = 2
INVARIANTS TableIsOptimum Monotone DirectIsTable DeepIsEnough
CHECK_DEADLOCK FALSE
