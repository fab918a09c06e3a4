SPECIFICATION Spec
CONSTANTS
  T = "pc"
  B = "gf2"
  Cap = 24
  Emit = TRUE
INVARIANTS Laws EmitPair
CHECK_DEADLOCK FALSE
