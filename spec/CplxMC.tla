------------------------------- MODULE CplxMC -------------------------------
(* Exhaustive: every pair of complex numbers over a small domain, every     *)
(* operation in every form.  The transitions are emitted and replayed on    *)
(* the implementation.                                                      *)
EXTENDS Cplx, Json
CONSTANTS K,       \* "gf2".."gf11", or "int" with the box below
          Box, Emit

Field0 == K \in {"gf3", "gf7", "gf11"}    \* -1 is no square: T[i] is a field
Elems == IF K = "int" THEN (-Box)..Box ELSE 0..(Primes[K] - 1)
Cs == Elems \X Elems
k0 == <<"cplx", K>>
b0 == <<K>>

VARIABLES sid, st
Ev(op, f, d, a, b) == [op |-> op, f |-> f, d |-> d, a |-> a, b |-> b]
Script1 == <<
  Ev("add", "vv", 2, 0, 1), Ev("sub", "vv", 2, 0, 1), Ev("mul", "vv", 2, 0, 1), Ev("mul", "rr", 2, 0, 1),
  Ev("mul", "mr", 2, 0, 1), Ev("neg", "vv", 2, 0, 0), Ev("conj", "vv", 2, 0, 0),
  Ev("clone", "", 2, 0, 0), Ev("add", "av", 2, 2, 1), Ev("sub", "ar", 2, 2, 1), Ev("sub", "av", 2, 2, 1),
  Ev("add", "ar", 2, 2, 1), Ev("mul", "av", 2, 2, 1), Ev("sqr", "", 2, 2, 2),
  [op |-> "norm", a |-> 0], [op |-> "eq", a |-> 0, b |-> 1], [op |-> "eq", a |-> 2, b |-> 0] >>
Script2 == <<
  Ev("div", "vv", 2, 0, 1), Ev("mul", "vv", 2, 2, 1), [op |-> "eq", a |-> 2, b |-> 0],
  Ev("mul", "rr", 2, 0, 1), Ev("div", "rr", 2, 2, 1), [op |-> "eq", a |-> 2, b |-> 0], Ev("div", "mr", 2, 1, 1) >>
Divides(s) == Field0 /\ s[2] # RZero(k0)
Script(s) == Script1 \o (IF Divides(s) THEN Script2 ELSE <<>>) \o <<[op |-> "dump"]>>

Init == /\ sid \in Cs \X Cs
        /\ kind = k0
        /\ regs = <<sid[1], sid[2], RZero(k0)>>
        /\ out = <<>>
        /\ st = 0
Step == /\ st < Len(Script(sid))
        /\ Do(Script(sid)[st + 1])
        /\ st' = st + 1
        /\ UNCHANGED sid
Spec == Init /\ [][Step]_<<svars, sid, st>>

EmitStep == IF Emit /\ st = 0 THEN PrintT(<<"EMIT", ToJson([load |-> sid, div |-> Divides(sid)])>>) ELSE TRUE
ASSUME Emit => PrintT(<<"EMIT", ToJson([kind |-> k0, script |-> Script1, script2 |-> Script2])>>)

P == regs[1]
Q == regs[2]
Cj(z) == RConj(k0, z)
Laws == st = 0 =>
  /\ RMul(k0, P, Q) = RMul(k0, Q, P)
  /\ RSub(k0, P, P) = RZero(k0) /\ RAdd(k0, RSub(k0, P, Q), Q) = P
  /\ RMul(k0, P, ROne(k0)) = P
  /\ LET i == <<RZero(b0), ROne(b0)>> IN RMul(k0, i, i) = RNeg(k0, ROne(k0))
  /\ Cj(Cj(P)) = P
  /\ Cj(RMul(k0, P, Q)) = RMul(k0, Cj(P), Cj(Q))
  /\ Cj(RAdd(k0, P, Q)) = RAdd(k0, Cj(P), Cj(Q))
  /\ RMul(k0, P, Cj(P)) = <<Norm(k0, P), RZero(b0)>>
  /\ Norm(k0, RMul(k0, P, Q)) = RMul(b0, Norm(k0, P), Norm(k0, Q))
  /\ Divides(sid) => /\ RDiv(k0, RMul(k0, P, Q), Q) = P
                     /\ RMul(k0, RDiv(k0, P, Q), Q) = P
  \* over the integers: at most one element of the domain is a principal root
  /\ K = "int" => Cardinality({s \in Cs : IsPrincipalRoot(k0, P, s)}) <= 1
  /\ K = "int" => LET s == IF Sgn(b0, Q[1]) > 0 \/ (Q[1] = 0 /\ Q[2] >= 0) THEN Q ELSE RNeg(k0, Q)
                  IN  IsPrincipalRoot(k0, RMul(k0, Q, Q), s)
Distributive == (st = 0 /\ K # "int") => \A r \in {<<ROne(b0), ROne(b0)>>, <<RZero(b0), ROne(b0)>>} :
     /\ RMul(k0, RAdd(k0, P, Q), r) = RAdd(k0, RMul(k0, P, r), RMul(k0, Q, r))
     /\ RMul(k0, RMul(k0, P, Q), r) = RMul(k0, P, RMul(k0, Q, r))
=============================================================================
