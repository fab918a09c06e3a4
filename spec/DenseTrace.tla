----------------------------- MODULE DenseTrace -----------------------------
EXTENDS Dense, TraceLib
VARIABLE l

\* e.obs: sizes and elements by indexing; e.eqok: every other way of reading
\* the variable (and, for expressions, sizes and entries) agrees with that
SameM(o, a) == o.r = a.r /\ o.c = a.c /\ MJ(kind', o).v = a.v
SameV(o, a) == VJ(kind', o) = a
Target(e) == IF e.op \in MWrites THEN SameM(e.obs, ms'[e.d + 1]) ELSE SameV(e.obs, vs'[e.d + 1])
CallsOf(k, c) == [g |-> c.g, m |-> [i \in 1..Len(c.m) |-> <<c.m[i][1], FromJ(k, c.m[i][2])>>],
                  z |-> [i \in 1..Len(c.z) |-> <<c.z[i][1], FromJ(k, c.z[i][2]), FromJ(k, c.z[i][3])>>]]
Sizes(e) == CASE e.op = "meval" -> e.sz = <<ms'[e.d + 1].r, ms'[e.d + 1].c>>
              [] e.op = "veval" -> e.sz = <<Len(vs'[e.d + 1])>>
              [] OTHER -> TRUE
Lazy(e) == "lz" \in DOMAIN e =>
  LET want == StepCalls(e)  got == CallsOf(kind, e.calls) IN
  e.built = 0 /\ SameBag(want.g, got.g) /\ SameBag(want.m, got.m) /\ SameBag(want.z, got.z) /\ Sizes(e)

Written(e) ==
  IF e.op \in {"masg", "vasg"} THEN e.out = "ok" /\ e.rej = out'.rej /\ e.eqok /\ Target(e)
  ELSE IF out'.rej THEN e.out = "panic" ELSE e.out = "ok" /\ e.eqok /\ Target(e)
RowPairs(k, j) == [i \in 1..Len(j) |-> <<FromJ(k, j[i][1]), FromJ(k, j[i][2])>>]
Answered(e) ==
  IF out'.rej THEN e.out = "panic"
  ELSE /\ e.out = "ok"
       /\ CASE e.op \in {"ment", "vent"} -> e.sz = out'.y.sz /\ FromJ(kind, e.y) = out'.y.y
            [] e.op \in {"mget", "vget", "dot"} -> FromJ(kind, e.y) = out'.y
            [] e.op \in {"meq", "veq"} -> e.eq = out'.y /\ e.ne = ~out'.y
            [] e.op = "mzip" -> Len(e.y) = Len(out'.y) /\ \A i \in DOMAIN e.y : RowPairs(kind, e.y[i]) = out'.y[i]
            [] e.op = "vzip" -> RowPairs(kind, e.y) = out'.y
            [] e.op = "dump" -> /\ e.eqok
                                /\ \A i \in DOMAIN ms : SameM(e.ms[i], ms[i])
                                /\ \A i \in DOMAIN vs : SameV(e.vs[i], vs[i])
Matches(e) ==
  CASE e.op = "session" -> e.out = "ok"
    [] e.op \in MWrites \cup VWrites -> Written(e) /\ (out'.rej \/ Lazy(e))
    [] OTHER -> Answered(e) /\ (out'.rej \/ Lazy(e))
Want(e) == <<out', CASE e.op \in MWrites -> ms'[e.d + 1] [] e.op \in VWrites -> vs'[e.d + 1] [] OTHER -> <<>>,
             IF "lz" \in DOMAIN e /\ ~out'.rej THEN StepCalls(e) ELSE <<>> >>

TInit == kind = <<"int">> /\ ms = <<>> /\ vs = <<>> /\ out = Ok(<<>>) /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ Do(Trace[l])
         /\ Report(l, Matches(Trace[l]), Want(Trace[l]))
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<dvars, l>>
=============================================================================
