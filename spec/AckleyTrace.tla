----------------------------- MODULE AckleyTrace ----------------------------
(* e.q = round(10^6 f), e.u = round(2^14 f), e.pos = (f > 0), e.fin         *)
EXTENDS Ackley, TraceLib
VARIABLE l
Lattice(e) == e.d = 4 /\ Abs(e.a) <= 20 /\ Abs(e.b) <= 20
Matches(e) ==
  /\ e.out = "ok"
  /\ e.op = "val" =>
     /\ e.fin
     /\ Abs(e.u - Value(e.a, e.b, e.d)) <= 120
     /\ (e.a = 0 /\ e.b = 0) => Abs(e.q) <= 5
     /\ (e.a # 0 \/ e.b # 0) => e.pos
     /\ Lattice(e) => \A k \in known : Agrees(R2(e.a, e.b), C2(e.a, e.b), e.q, k[1], k[2], k[3], 40)
TInit == known = {} /\ here = <<0, 0, 1>> /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
              IF e.op = "session" \/ e.out # "ok" THEN Forget
              ELSE IF Lattice(e) THEN Observe(e.a, e.b, e.d, e.q) ELSE Observe(e.a, e.b, 1, 0)
         /\ Report(l, Matches(Trace[l]), IF Trace[l].op = "val" THEN <<Value(Trace[l].a, Trace[l].b, Trace[l].d)>> ELSE <<>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<avars, l>>
=============================================================================
