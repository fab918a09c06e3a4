------------------------------ MODULE AckleyMC ------------------------------
(* The formula has the documented shape: checked in fixed point arithmetic   *)
(* for every pair of a lattice point and one of a sample.                    *)
EXTENDS Ackley
CONSTANTS Max
VARIABLE pt
Init == known = {} /\ here = <<0, 0, 4>> /\ pt \in (-Max..Max) \X (-Max..Max)
Next == FALSE /\ UNCHANGED <<avars, pt>>
Spec == Init /\ [][Next]_<<avars, pt>>
a == pt[1]
b == pt[2]
v == Value(a, b, 4)
Slack == 60
\* the error of fixed point arithmetic is below Slack
Nearly(r, c, p, r2, c2, q) ==
  /\ (r = r2 /\ c = c2) => Abs(p - q) <= Slack
  /\ (c = c2 /\ r < r2) => p < q + Slack
  /\ (r = r2 /\ c < c2) => p > q
Shape ==
  /\ (a = 0 /\ b = 0) <=> Abs(v) <= 4
  /\ (a # 0 \/ b # 0) => v > 1000
  /\ v = Value(b, a, 4) /\ v = Value(-a, b, 4) /\ v = Value(a, -b, 4)
  /\ \A q \in (0..Max) \X {0, 1, 2, 3, 5, Max} :
       LET w == Value(q[1], q[2], 4) IN
       Nearly(R2(a, b), C2(a, b), v, R2(q[1], q[2]), C2(q[1], q[2]), w)
\* the series are right: values of the cosine at twelfths, exp(1), exp(-1)
ASSUME \A d \in {1, 2, 3, 4, 6, 8, 12} : Abs(Cos2Pi(0, d) - S) <= 2
ASSUME Abs(Cos2Pi(1, 6) - 8192) <= 4 /\ Abs(Cos2Pi(1, 3) + 8192) <= 4 /\ Abs(Cos2Pi(5, 12) + 14189) <= 4
ASSUME Abs(Cos2Pi(1, 8) - 11585) <= 4 /\ Abs(Cos2Pi(-3, 8) + 11585) <= 4
ASSUME Abs(Exp1(S) - 44536) <= 4 /\ Abs(Exp1(-S) - 6027) <= 4 /\ Abs(ExpNeg(S) - 6027) <= 6 /\ Abs(ExpNeg(3 * S) - 816) <= 6
=============================================================================
