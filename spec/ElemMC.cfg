SPECIFICATION Spec
CONSTANTS
  Triples <- TriplesDef
  Logs <- LogsDef
  Emit = TRUE
INVARIANT Identities
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
