----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, TraceLib
VARIABLE l

\* every question is asked in both directions and in the negative
Matches(e) ==
  /\ e.out = "ok"
  /\ CASE e.op = "eq" -> e.eq = out' /\ e.qe = out' /\ e.ne = ~out' /\ e.en = ~out'
       [] e.op = "dump" -> /\ Len(e.regs) = Len(regs')
                           /\ \A i \in DOMAIN regs' : e.regs[i].r = regs'[i].r /\ e.regs[i].c = regs'[i].c /\ e.regs[i].x = regs'[i].x
       [] OTHER -> TRUE

TInit == sort = "dm" /\ et = "int" /\ regs = <<>> /\ out = <<>> /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ Do(Trace[l])
         /\ Report(l, Matches(Trace[l]), out')
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<cvars, l>>
=============================================================================
