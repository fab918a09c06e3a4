------------------------------ MODULE PolyTrace ------------------------------
EXTENDS Poly, TraceLib
VARIABLE l

\* a polynomial as observed on the implementation: either all coefficients
\* (up to zeros at the end) or values at points
Shows(obs, p) ==
  IF "co" \in DOMAIN obs THEN FromJ(kind', obs.co) = p
  ELSE \A i \in DOMAIN obs.pt : LET b == Tail(kind') IN
         FromJ(b, obs.pt[i][2]) = PolyEval(b, p, FromJ(b, obs.pt[i][1]))

Matches(e) ==
  /\ e.out = "ok"
  /\ CASE e.op = "session" -> TRUE
       [] e.op \in RingWrites -> Shows(e.obs, regs'[e.d + 1])
       [] e.op = "eq" -> out' = [eq |-> e.eq, ne |-> e.ne]
       [] e.op = "eval" -> out'.y = FromJ(Tail(kind'), e.y)
       [] e.op = "dump" -> \A i \in DOMAIN regs' : Shows(e.regs[i], regs'[i])

TInit == kind = <<"poly", "int">> /\ regs = <<>> /\ out = <<>> /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ Do(Trace[l])
         /\ Report(l, Matches(Trace[l]), <<out', IF "d" \in DOMAIN Trace[l] THEN regs'[Trace[l].d + 1] ELSE <<>>>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
