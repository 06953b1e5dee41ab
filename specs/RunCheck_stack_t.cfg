SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  K = "stack"
  MaxLen = 8
  MaxSteps = 4
  Sizes = {0, 1, 3}
