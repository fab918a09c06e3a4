----------------------------- MODULE TowerTrace -----------------------------
EXTENDS Tower, TraceLib
VARIABLE l

\* the value observed, and whether the library's own == recognises it
Shows(obs, v) == obs[2] /\ FromJ(kind', obs[1]) = v

Matches(e) ==
  /\ e.out = "ok"
  /\ CASE e.op = "session" -> TRUE
       [] e.op \in RingQueries -> out' = [eq |-> e.eq, ne |-> e.ne]
       [] e.op = "dump" -> \A i \in DOMAIN regs' : Shows(e.regs[i], regs'[i])
       [] OTHER -> Shows(e.obs, regs'[e.d + 1])

TInit == kind = <<"poly", "int">> /\ regs = <<>> /\ out = <<>> /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ Do(Trace[l])
         /\ Report(l, Matches(Trace[l]), <<out', IF "d" \in DOMAIN Trace[l] THEN regs'[Trace[l].d + 1] ELSE <<>>>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
