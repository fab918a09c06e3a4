SPECIFICATION Spec
CONSTANTS
  K = "gf2"
  MaxLen = 3
  Emit = TRUE
INVARIANTS Laws Canonical
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
