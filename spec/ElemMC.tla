------------------------------- MODULE ElemMC -------------------------------
(* A grid of exact arguments: TLC checks the identities between the         *)
(* functions on all of it and emits every call, with the denominator that   *)
(* makes the observation exact.                                             *)
EXTENDS Elem, Json
CONSTANTS Triples,  \* Pythagorean triples
          Logs,     \* positive rationals
          Emit

TriplesDef == {<<1, 0, 1>>, <<3, 4, 5>>, <<5, 12, 13>>}
LogsDef == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<1, 3>>, <<3, 2>>, <<9, 8>>, <<7, 1>>, <<1, 7>>}
TriplesBig == TriplesDef \cup {<<8, 15, 17>>, <<7, 24, 25>>, <<20, 21, 29>>}
LogsBig == LogsDef \cup {<<2, 3>>, <<8, 9>>, <<5, 1>>, <<1, 5>>, <<12, 1>>, <<1, 12>>, <<5, 4>>, <<4, 5>>, <<20, 1>>, <<11, 10>>}
Signs == {-1, 1}
Angles == {[k |-> "ang", c |-> Rat(p * t[1], t[3]), s |-> Rat(q * t[2], t[3]), w |-> 0] : t \in Triples, p \in Signs, q \in Signs}
     \cup {[k |-> "ang", c |-> Rat(p * t[2], t[3]), s |-> Rat(q * t[1], t[3]), w |-> 0] : t \in Triples, p \in Signs, q \in Signs}
LnArgs == {[k |-> "ln", v |-> x] : x \in Logs}

VARIABLES call
Zero0 == <<0, 1>>
CplxCalls ==
  [op : {"cplx"}, f : {"exp", "sinh", "cosh"}, x : LnArgs, y : Angles]
  \cup {c \in [op : {"cplx"}, f : {"sin", "cos", "tan"}, x : Angles, y : LnArgs] :
          c.f = "tan" => /\ CCos(c.x, c.y) # <<Zero0, Zero0>>
                         /\ c.x.c[2] * c.y.v[1] * c.y.v[2] <= 200}    \* (32 bit)
RealCalls ==
  [op : {"real"}, f : {"exp", "sinh", "cosh"}, x : LnArgs]
  \cup {c \in [op : {"real"}, f : {"sin", "cos", "tan"}, x : Angles] : c.f = "tan" => c.x.c # Zero0}
  \cup {c \in [op : {"real"}, f : {"asin"}, x : Angles] : SgnR(c.x.c) >= 0}
Init == call \in CplxCalls \cup RealCalls /\ answer = <<>>
Next == answer = <<>> /\ Call(call) /\ UNCHANGED call
Spec == Init /\ [][Next]_<<evars, call>>

Lcm(a, b) == a * (b \div Gcd(a, b))
Den(a) == IF call.op = "cplx" THEN Lcm(a[1][2], a[2][2])
          ELSE IF a.k = "rat" THEN a.v[2] ELSE Lcm(a.c[2], a.s[2])
EmitStep == IF Emit THEN PrintT(<<"EMIT", ToJson([call |-> call, den |-> Den(answer'), val |-> answer'])>>) ELSE TRUE

\* the series satisfy the differential equations of their functions
Coef(f, j) == Series(f)[j + 1]
D(f, j) == RatMul(R(j + 1), Coef(f, j + 1))       \* coefficient j of the derivative
Prod(f, g, j) == FoldLeft(LAMBDA a, i : RatAdd(a, RatMul(Coef(f, i - 1), Coef(g, (j - i) + 1))), R(0), Upto(j + 1))
Delta(j) == IF j = 0 THEN R(1) ELSE R(0)
ASSUME \A j \in 0..2 :
  /\ D("exp", j) = Coef("exp", j) /\ D("sin", j) = Coef("cos", j) /\ D("cos", j) = RatNeg(Coef("sin", j))
  /\ D("sinh", j) = Coef("cosh", j) /\ D("cosh", j) = Coef("sinh", j)
  /\ Prod("tan", "cos", j + 1) = Coef("sin", j + 1)
  /\ D("tan", j) = RatAdd(Delta(j), Prod("tan", "tan", j))
  /\ Prod("sqrt1p", "sqrt1p", j) = (IF j < 2 THEN R(1) ELSE R(0))
  /\ RatAdd(D("ln1p", j), IF j = 0 THEN R(0) ELSE D("ln1p", j - 1)) = Delta(j)
  /\ RatAdd(D("atan", j), IF j < 2 THEN R(0) ELSE D("atan", j - 2)) = Delta(j)
\* asin' * sqrt(1 - z^2) = 1, where sqrt(1 - z^2) = 1 - z^2 / 2 + ...
ASSUME D("asin", 0) = R(1) /\ D("asin", 1) = R(0) /\ RatSub(D("asin", 2), <<1, 2>>) = R(0)

Sq(z) == RMul(QI, z, z)
One0 == <<R(1), Zero0>>
I0 == <<Zero0, R(1)>>
NegX(x) == IF x.k = "ln" THEN [x EXCEPT !.v = RatInv(@)] ELSE [x EXCEPT !.s = RatNeg(@)]
\* far out
Dbl(v) == [v EXCEPT !.sc = @ + 1]
ASSUME \A a \in Angles, n \in {30, 31, 200} :
  LET p == [k |-> "p2", n |-> n]  m == [k |-> "p2", n |-> -n] IN
  \* e^z e^-z = 1
  /\ LET u == Far("exp", p, a)  v == Far("exp", m, NegX(a)) IN u.sc + v.sc = 0 /\ RMul(QI, u.z, v.z) = One0
  \* 2 cosh z = 2 sinh z = e^z on the right; even and odd
  /\ Dbl(Far("cosh", p, a)) = Far("exp", p, a) /\ Far("sinh", p, a) = Far("cosh", p, a)
  /\ Far("cosh", m, NegX(a)) = Far("cosh", p, a)
  /\ Far("sinh", m, NegX(a)).z = RNeg(QI, Far("sinh", p, a).z)
  \* cos z = cosh iz, i sin z = sinh iz with z = a + ip, iz = -p + ia
  /\ Far("cos", a, p) = Far("cosh", m, a)
  /\ RMul(QI, I0, Far("sin", a, p).z) = Far("sinh", m, a).z
  /\ Far("cos", a, m) = Far("cosh", p, a)
  /\ RMul(QI, I0, Far("sin", a, m).z) = Far("sinh", p, a).z
  \* tan z cos z = sin z
  /\ RMul(QI, Far("tan", a, p).z, Far("cos", a, p).z) = Far("sin", a, p).z
  /\ RMul(QI, Far("tan", a, m).z, Far("cos", a, m).z) = Far("sin", a, m).z
\* the defining identities
Identities == (call.op = "cplx") =>
  LET x == call.x  y == call.y IN
  /\ WellFormed(x) /\ WellFormed(y)
  /\ call.f = "exp" => RMul(QI, CExp(x, y), CExp(NegX(x), NegX(y))) = One0
  /\ call.f = "cosh" => /\ RSub(QI, Sq(CCosh(x, y)), Sq(CSinh(x, y))) = One0
                        /\ RAdd(QI, CCosh(x, y), CSinh(x, y)) = CExp(x, y)
                        /\ RSub(QI, CCosh(x, y), CSinh(x, y)) = CExp(NegX(x), NegX(y))
  \* exp(iz) = cos z + i sin z, where iz = -y + ix
  /\ call.f = "sin" => /\ RAdd(QI, Sq(CCos(x, y)), Sq(CSin(x, y))) = One0
                       /\ RAdd(QI, CCos(x, y), RMul(QI, I0, CSin(x, y))) = CExp(NegX(y), x)
  /\ call.f = "tan" => RMul(QI, Cplx("tan", x, y), CCos(x, y)) = CSin(x, y)
=============================================================================
