SPECIFICATION Spec
CONSTANTS
  K = "gf3"
  Box = 2
  Emit = TRUE
INVARIANTS Laws Distributive
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
