SPECIFICATION Spec
CONSTANTS
  TASK = "instance-cost-sensitive"
  M = 1
  F = 2
INVARIANTS TableIsOptimum Monotone DirectIsTable DeepIsEnough
CHECK_DEADLOCK FALSE
