SPECIFICATION Spec
CONSTANTS
  K = "gf2"
  L = 2
  M = 2
  N = 2
  Emit = TRUE
INVARIANTS Laws Assoc
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
