SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  K = "list"
  MaxLen = 7
  MaxSteps = 2
  Sizes = {0, 1, 3}
