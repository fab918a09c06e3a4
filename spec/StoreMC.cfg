SPECIFICATION Spec
CONSTANTS
  Sort = "dm"
  T = "int"
  Alphabet = {0, 1}
  MaxR = 2
  MaxC = 2
  Emit = TRUE
INVARIANTS Laws Apart
PROPERTY Frame
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
