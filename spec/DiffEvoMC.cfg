SPECIFICATION Spec
CONSTANTS
  Np = 4
  N = 1
  Q = 3
  Ranks = 3
  Iters = 3
  FwN = 1
  FwD = 1
  CrN = 1
  CrD = 2
  Emit = FALSE
INVARIANTS Elitist BestOK Closed KnockoutOK Progress EmitHist
PROPERTY Improve
CHECK_DEADLOCK FALSE
