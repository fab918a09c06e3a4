------------------------------- MODULE Ackley -------------------------------
(***************************************************************************)
(* The two-dimensional Ackley function at points (a/D, b/D).               *)
(*   f(x,y) = 20(1 - exp(-0.2 sqrt((x^2+y^2)/2)))                          *)
(*            + e - exp((cos 2 pi x + cos 2 pi y)/2)                       *)
(* Value() is the formula in fixed point arithmetic (unit 2^-14); on the   *)
(* quarter lattice (D = 4) the shape is described exactly, by the squared  *)
(* radius and the sum of the two cosines, which are integers there.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 16384
Abs(a) == IF a < 0 THEN -a ELSE a
\* rounded quotient, also of negative numbers
Div(a, b) == IF a >= 0 THEN (a + (b \div 2)) \div b ELSE -(((-a) + (b \div 2)) \div b)
Mul(a, b) == Div(a * b, S)

RECURSIVE Isqrt_(_, _, _)
Isqrt_(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2
                          IN  IF m * m <= n THEN Isqrt_(n, m, hi) ELSE Isqrt_(n, lo, m)
Isqrt(n) == Isqrt_(n, 0, 46341)

\* exp(z) for |z| <= 1 and exp(-z) for z >= 0
RECURSIVE Taylor(_, _, _, _)
Taylor(z, term, k, n) == IF k > n THEN 0 ELSE term + Taylor(z, Div(term * z, S * k), k + 1, n)
Exp1(z) == Taylor(z, S, 1, 13)
ExpNeg(z) == IF z <= S THEN Exp1(-z) ELSE
             LET e == Exp1(-Div(z, 8))
                 e2 == Mul(e, e)
                 e4 == Mul(e2, e2)
             IN  Mul(e4, e4)

\* cosine and sine of (pi/2) r/D with 0 <= r < D
Quarter(r, D) == Div(25736 * r, D)
RECURSIVE Trig(_, _, _)
Trig(z2, term, k) == IF k > 15 THEN 0 ELSE term + Trig(z2, -Div(Div(term * z2, S), k * (k + 1)), k + 2)
CosQ(r, D) == LET z == Quarter(r, D) IN Trig(Mul(z, z), S, 1)
SinQ(r, D) == LET z == Quarter(r, D) IN Trig(Mul(z, z), z, 2)
\* cos(2 pi a/D)
Cos2Pi(a, D) ==
  LET m == (4 * a) % (4 * D)
      r == m % D
  IN  CASE m \div D = 0 -> CosQ(r, D)
        [] m \div D = 1 -> -SinQ(r, D)
        [] m \div D = 2 -> -CosQ(r, D)
        [] OTHER -> SinQ(r, D)

\* sqrt((x^2 + y^2)/2) = sqrt(n * 2^k) * 2^((27 - k)/2) / D in fixed point,
\* with n = a^2 + b^2 and the greatest odd k for which n * 2^k is representable
RECURSIVE Shift(_, _)
Shift(n, k) == IF k < 27 /\ n < 268435456 THEN Shift(4 * n, k + 2)
               ELSE IF k < 27 THEN 2 ^ ((27 - k) \div 2) * Isqrt(n) ELSE Isqrt(n)
Radius(a, b, D) == Div(Shift(2 * (a * a + b * b), 1), D)
Value(a, b, D) == 20 * (S - ExpNeg(Div(Radius(a, b, D), 5)))
                  + 44536 - Exp1(Div(Cos2Pi(a, D) + Cos2Pi(b, D), 2))

------------------------------------------------------------------------------
(* The quarter lattice *)
Cos4(a) == LET m == a % 4 IN IF m = 0 THEN 1 ELSE IF m = 2 THEN -1 ELSE 0
R2(a, b) == a * a + b * b
C2(a, b) == Cos4(a) + Cos4(b)

\* how two values p, q (in any unit) at two lattice points must compare
Agrees(r, c, p, r2, c2, q, eps) ==
  /\ (r = r2 /\ c = c2) => Abs(p - q) <= eps
  /\ (c = c2 /\ r < r2) => p < q
  /\ (c = c2 /\ r > r2) => p > q
  /\ (r = r2 /\ c < c2) => p > q
  /\ (r = r2 /\ c > c2) => p < q

VARIABLES known,  \* what was observed on the lattice: <<r2, c2, value>>
          here    \* the last point
avars == <<known, here>>

Observe(a, b, D, q) ==
  /\ here' = <<a, b, D>>
  /\ known' = IF D = 4 THEN known \cup {<<R2(a, b), C2(a, b), q>>} ELSE known
Forget == known' = {} /\ here' = <<0, 0, 1>>
=============================================================================
