SPECIFICATION Spec
CONSTANTS
  Triples <- TriplesBig
  Logs <- LogsBig
  Emit = TRUE
INVARIANT Identities
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
