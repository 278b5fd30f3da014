SPECIFICATION Spec
CONSTANTS
  TASK = "equality-of-opportunity"
  M = 1
  F = 2
INVARIANTS TableIsOptimum Monotone DirectIsTable DeepIsEnough
CHECK_DEADLOCK FALSE
