SPECIFICATION Spec
CONSTANTS
  Max = 20
INVARIANT Shape
CHECK_DEADLOCK FALSE
