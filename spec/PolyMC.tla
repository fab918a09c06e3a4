------------------------------- MODULE PolyMC -------------------------------
(* Exhaustive exploration over a finite ring: two polynomial variables with *)
(* every pair of coefficient lists (zeros at the end included), then every  *)
(* operation in every operator form.  Every transition is emitted, to be    *)
(* replayed on the implementation.                                          *)
EXTENDS Poly, Json
CONSTANTS K, MaxLen, Emit

Elems == 0..(Primes[K] - 1)
Lists == UNION {[1..n -> Elems] : n \in 0..MaxLen}

VARIABLES sid,  \* the two coefficient lists the session started from
          st    \* number of operations done

Ev(op, f, d, a, b) == [op |-> op, f |-> f, d |-> d, a |-> a, b |-> b]
Script == <<
  Ev("add", "vv", 2, 0, 1), Ev("sub", "vv", 2, 0, 1), Ev("mul", "vv", 2, 0, 1), Ev("mul", "rr", 2, 0, 1),
  Ev("mul", "mr", 2, 0, 1), Ev("neg", "vv", 2, 0, 0),
  Ev("clone", "", 2, 0, 0), Ev("add", "av", 2, 2, 1), Ev("sub", "av", 2, 2, 1),
  Ev("add", "ar", 2, 2, 1), Ev("sub", "ar", 2, 2, 1), Ev("mul", "av", 2, 2, 1),
  Ev("clone", "", 2, 0, 0), Ev("add", "ar", 2, 2, 1), Ev("clone", "", 2, 0, 0), Ev("sub", "ar", 2, 2, 1),
  Ev("clone", "", 2, 0, 0), Ev("sub", "av", 2, 2, 1),
  [op |-> "eq", a |-> 0, b |-> 1], [op |-> "eq", a |-> 1, b |-> 0], [op |-> "eq", a |-> 2, b |-> 0],
  [op |-> "dump"] >>

Init == /\ sid \in Lists \X Lists
        /\ kind = <<"poly", K>>
        /\ LET z == RZero(<<K>>) IN regs = <<PolyNorm(z, sid[1]), PolyNorm(z, sid[2]), <<>>>>
        /\ out = <<>>
        /\ st = 0
Step == /\ st < Len(Script)
        /\ Do(Script[st + 1])
        /\ st' = st + 1
        /\ UNCHANGED sid
Spec == Init /\ [][Step]_<<svars, sid, st>>

EmitStep == IF Emit /\ st = 0
            THEN PrintT(<<"EMIT", ToJson([load |-> sid])>>) ELSE TRUE
ASSUME Emit => PrintT(<<"EMIT", ToJson([kind |-> <<"poly", K>>, script |-> Script])>>)

P == regs[1]
Q == regs[2]
k0 == kind
b0 == Tail(kind)
Small == UNION {[1..n -> Elems] : n \in 0..1}

\* the ring axioms and the homomorphism property of evaluation
Laws == st = 0 =>
  /\ RAdd(k0, P, Q) = RAdd(k0, Q, P)
  /\ RSub(k0, P, P) = RZero(k0)
  /\ RAdd(k0, RSub(k0, P, Q), Q) = P
  /\ RMul(k0, P, Q) = RMul(k0, Q, P)
  /\ RMul(k0, ROne(k0), P) = P /\ RMul(k0, P, ROne(k0)) = P
  /\ RAdd(k0, P, RZero(k0)) = P
  /\ (P # <<>> /\ Q # <<>>) => Len(RMul(k0, P, Q)) = Len(P) + Len(Q) - 1
  /\ \A r0 \in Small : LET r == PolyNorm(0, r0) IN
       /\ RMul(k0, RAdd(k0, P, Q), r) = RAdd(k0, RMul(k0, P, r), RMul(k0, Q, r))
       /\ RMul(k0, r, RAdd(k0, P, Q)) = RAdd(k0, RMul(k0, r, P), RMul(k0, r, Q))
       /\ RMul(k0, RMul(k0, P, Q), r) = RMul(k0, P, RMul(k0, Q, r))
       /\ RAdd(k0, RAdd(k0, P, Q), r) = RAdd(k0, P, RAdd(k0, Q, r))
  /\ \A x \in Elems :
       /\ PolyEval(b0, RAdd(k0, P, Q), x) = RAdd(b0, PolyEval(b0, P, x), PolyEval(b0, Q, x))
       /\ PolyEval(b0, RMul(k0, P, Q), x) = RMul(b0, PolyEval(b0, P, x), PolyEval(b0, Q, x))
       /\ PolyEval(b0, RNeg(k0, P), x) = RNeg(b0, PolyEval(b0, P, x))
\* variables always hold canonical polynomials over the coefficient ring
Canonical == \A i \in DOMAIN regs : /\ regs[i] \in Seq(Elems)
                                    /\ regs[i] = <<>> \/ regs[i][Len(regs[i])] # 0
=============================================================================
