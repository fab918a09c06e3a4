SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Few = 2
  Start = "M"
  Emit = TRUE
INVARIANTS LawsM LawsV
CONSTRAINT EmitState
CHECK_DEADLOCK FALSE
