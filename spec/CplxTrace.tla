------------------------------ MODULE CplxTrace ------------------------------
EXTENDS Cplx, TraceLib
VARIABLE l

\* What an answer of the implementation must satisfy.
Answers(e) ==
  CASE e.op = "eq" -> out' = [eq |-> e.eq, ne |-> e.ne]
    [] e.op = "norm" -> FromJ(Tail(kind'), e.y) = out'.y
       \* the modulus is a non-negative square root of the squared norm
    [] e.op = "abs" -> /\ e.sg >= 0 /\ FromJ(Tail(kind'), e.y2) = out'.y
                       /\ "y" \in DOMAIN e => LET y == FromJ(Tail(kind'), e.y) IN
                            Sgn(Tail(kind'), y) >= 0 /\ RMul(Tail(kind'), y, y) = out'.y
       \* |z| (cos a + i sin a) = z and a is in [-pi, pi]
       \* and pi (not -pi) for a negative number whose imaginary zero is positive
    [] e.op = "arg" -> /\ e.inrange /\ FromJ(kind', e.polar) = out'.z
                       /\ (~e.negzero /\ Sgn(Tail(kind'), out'.z[2]) = 0 /\ Sgn(Tail(kind'), out'.z[1]) < 0) => e.sg = 1
    [] e.op = "sqrt" -> /\ FromJ(kind', e.sq) = out'.z
                        /\ PrincipalSigns(kind', out'.z, e.sg[1], e.sg[2])
                        /\ "root" \in DOMAIN e => IsPrincipalRoot(kind', out'.z, FromJ(kind', e.root))
    [] e.op = "dump" -> \A i \in DOMAIN regs' : FromJ(kind', e.regs[i]) = regs'[i]

Matches(e) ==
  /\ e.out = "ok"
  /\ CASE e.op = "session" -> TRUE
       [] e.op \in CplxWrites -> FromJ(kind', e.obs) = regs'[e.d + 1]
       [] OTHER -> Answers(e)

TInit == kind = <<"cplx", "int">> /\ regs = <<>> /\ out = <<>> /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ Do(Trace[l])
         /\ Report(l, Matches(Trace[l]), <<out', IF "d" \in DOMAIN Trace[l] THEN regs'[Trace[l].d + 1] ELSE <<>>>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
