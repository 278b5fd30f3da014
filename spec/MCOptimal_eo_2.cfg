SPECIFICATION Spec
CONSTANTS
  TASK = "equality-of-opportunity"
  M = 2
  F = 2
INVARIANTS TableIsOptimum Monotone DirectIsTable DeepIsEnough
CHECK_DEADLOCK FALSE
