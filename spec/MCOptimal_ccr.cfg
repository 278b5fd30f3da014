SPECIFICATION Spec
CONSTANTS
  TASK = "cost-complex-regression"
  M = 1
  F = 2
INVARIANTS TableIsOptimum Monotone DirectIsTable DeepIsEnough
CHECK_DEADLOCK FALSE
