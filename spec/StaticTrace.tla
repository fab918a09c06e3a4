---------------------------- MODULE StaticTrace ----------------------------
EXTENDS Static, TraceLib
VARIABLE l

\* e.eqok: the observed value compares equal (==) to the variable
Same(g, j, x) == IF IsVec(g) THEN VFromJ(kind', j) = x ELSE MFromJ(kind', j) = x
Written(e) ==
  IF out'.rej THEN e.out = "panic"
  ELSE e.out = "ok" /\ e.eqok /\ Same(Target(e), e.obs, st'[Target(e)][e.d + 1])
Answered(e) ==
  CASE e.op = "get" -> IF out'.rej THEN e.out = "panic" ELSE e.out = "ok" /\ FromJ(kind', e.y) = out'.y
    [] e.out # "ok" -> FALSE
    [] e.op = "dot" -> FromJ(kind', e.y) = out'.y
    [] e.op = "iter" -> VFromJ(kind', e.y) = out'.y
    [] e.op = "eq" -> e.eq = out'.y /\ e.ne = ~out'.y
    [] e.op = "dump" -> e.eqok /\ \A g \in DOMAIN st' : \A i \in DOMAIN st'[g] : Same(g, e.regs[g][i], st'[g][i])
Matches(e) ==
  CASE e.op = "session" -> e.out = "ok"
    [] e.op \in GroupWrites \cup CrossWrites -> Written(e)
    [] OTHER -> Answered(e)

TInit == kind = <<"int">> /\ dim = [l |-> 0, m |-> 0, n |-> 0] /\ st = <<>> /\ out = Nothing /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ Do(Trace[l])
         /\ Report(l, Matches(Trace[l]), <<out', IF "d" \in DOMAIN Trace[l] THEN st'[Target(Trace[l])][Trace[l].d + 1] ELSE <<>>>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<stvars, l>>
=============================================================================
