SPECIFICATION Spec
CONSTANTS
  Step = 5
INVARIANTS Ints Floats
CHECK_DEADLOCK FALSE
