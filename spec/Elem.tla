-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* The elementary functions, on arguments where their values are exact.    *)
(*                                                                         *)
(* Real arguments come as records:                                         *)
(*   [k |-> "rat", v |-> <<n,d>>]            the rational n/d              *)
(*   [k |-> "ln",  v |-> <<n,d>>]            ln(n/d), n/d > 0              *)
(*   [k |-> "ang", c |-> r, s |-> r, w |-> i]  the angle in (-pi, pi] with *)
(*                                           cosine c and sine s, plus     *)
(*                                           2*pi*w                        *)
(*   [k |-> "p2",  n |-> i]                  n * ln 2                      *)
(*   [k |-> "two", n |-> i]                  2^n                           *)
(*   [k |-> "sp",  v |-> "nan"|"inf"|"-inf"]                               *)
(*   [k |-> "nz"]                            the negative zero             *)
(* Values come in the same form (plus "exp2": sign and binary logarithm).  *)
(* Angle values stand for the angle they describe: the implementation's    *)
(* number is observed through its cosine, sine and range.                  *)
(***************************************************************************)
EXTENDS Ring

VARIABLES answer       \* the value of the last call
evars == <<answer>>

R(n) == <<n, 1>>
Half == <<1, 2>>
RSq(x) == RatMul(x, x)
RatSub(x, y) == RatAdd(x, RatNeg(y))
SgnR(x) == IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
RAbs(x) == <<AbsI(x[1]), x[2]>>

\* cosine and sine of an angle; hyperbolic cosine and sine of a logarithm
CosA(a) == a.c
SinA(a) == a.s
CoshL(a) == RatMul(Half, RatAdd(a.v, RatInv(a.v)))
SinhL(a) == RatMul(Half, RatSub(a.v, RatInv(a.v)))
WellFormed(a) ==
  CASE a.k = "ln" -> SgnR(a.v) > 0
    [] a.k = "ang" -> RatAdd(RSq(a.c), RSq(a.s)) = R(1)
    [] OTHER -> TRUE

Rat1(x) == [k |-> "rat", v |-> x]
Sp(x) == [k |-> "sp", v |-> x]
\* a point (x,y) of the plane standing for its direction
Dir(x, y) == [k |-> "dir", x |-> x, y |-> y]

(* Real functions *)
Real(f, a) ==
  CASE a.k = "sp" /\ a.v = "nan" -> Sp("nan")
    [] f = "abs"  -> IF a.k = "sp" THEN Sp("inf") ELSE Rat1(RAbs(a.v))
    [] f = "sqrt" -> CASE a.k = "sp" -> (IF a.v = "inf" THEN Sp("inf") ELSE Sp("nan"))
                       [] a.k = "two" -> [k |-> "exp2", s |-> 1, n |-> a.n, den |-> 2]
                       [] OTHER -> IF SgnR(a.v) < 0 THEN Sp("nan") ELSE [k |-> "root", v |-> a.v]
    [] f = "exp"  -> CASE a.k = "sp" -> (IF a.v = "inf" THEN Sp("inf") ELSE Rat1(R(0)))
                       [] a.k = "p2" -> [k |-> "exp2", s |-> 1, n |-> a.n, den |-> 1]
                       [] OTHER -> Rat1(a.v)
    [] f = "ln"   -> CASE a.k = "sp" -> (IF a.v = "inf" THEN Sp("inf") ELSE Sp("nan"))
                       [] a.k = "two" -> [k |-> "p2", n |-> a.n]
                       [] SgnR(a.v) < 0 -> Sp("nan")
                       [] SgnR(a.v) = 0 -> Sp("-inf")
                       [] OTHER -> [k |-> "ln", v |-> a.v]
    [] f \in {"sin", "cos", "tan"} /\ a.k = "sp" -> Sp("nan")
    [] f = "sin"  -> Rat1(SinA(a))
    [] f = "cos"  -> Rat1(CosA(a))
    [] f = "tan"  -> Rat1(RatMul(SinA(a), RatInv(CosA(a))))
    [] f = "asin" -> CASE a.k = "sp" -> Sp("nan")
                       [] a.k = "ang" -> [k |-> "ang", c |-> a.c, s |-> a.s, w |-> 0]   \* the argument is a.s; a.c >= 0
                       [] OTHER -> Sp("nan")                                            \* |argument| > 1
    [] f = "sinh" -> CASE a.k = "sp" -> a
                       [] a.k = "p2" -> [k |-> "exp2", s |-> IF a.n > 0 THEN 1 ELSE -1, n |-> AbsI(a.n) - 1, den |-> 1]
                       [] OTHER -> Rat1(SinhL(a))
    [] f = "cosh" -> CASE a.k = "sp" -> Sp("inf")
                       [] a.k = "p2" -> [k |-> "exp2", s |-> 1, n |-> AbsI(a.n) - 1, den |-> 1]
                       [] OTHER -> Rat1(CoshL(a))

\* atan2(y, x): the direction of the point (x, y); on the negative half of the
\* axis the sign s of the zero y decides between pi and -pi
Atan2(y, x) ==
  CASE (y.k = "sp" /\ y.v = "nan") \/ (x.k = "sp" /\ x.v = "nan") -> Sp("nan")
    [] (y.k = "nz" \/ (y.k = "rat" /\ SgnR(y.v) = 0)) /\ ((x.k = "sp" /\ x.v = "-inf") \/ (x.k = "rat" /\ SgnR(x.v) < 0)) ->
         [k |-> "cut", x |-> IF x.k = "sp" THEN R(-1) ELSE x.v, s |-> IF y.k = "nz" THEN -1 ELSE 1]
    [] y.k = "nz" /\ x.k # "sp" -> Dir(x.v, R(0))
    [] y.k = "sp" /\ x.k = "sp" -> Dir(R(IF x.v = "inf" THEN 1 ELSE -1), R(IF y.v = "inf" THEN 1 ELSE -1))
    [] y.k = "sp" -> Dir(R(0), R(IF y.v = "inf" THEN 1 ELSE -1))
    [] x.k = "sp" -> Dir(R(IF x.v = "inf" THEN 1 ELSE -1), R(0))
    [] OTHER -> Dir(x.v, y.v)

(* Complex functions of x + iy *)
QI == <<"cplx", "rat">>
CExp(x, y) == <<RatMul(x.v, CosA(y)), RatMul(x.v, SinA(y))>>
CSinh(x, y) == <<RatMul(SinhL(x), CosA(y)), RatMul(CoshL(x), SinA(y))>>
CCosh(x, y) == <<RatMul(CoshL(x), CosA(y)), RatMul(SinhL(x), SinA(y))>>
CSin(x, y) == <<RatMul(SinA(x), CoshL(y)), RatMul(CosA(x), SinhL(y))>>
CCos(x, y) == <<RatMul(CosA(x), CoshL(y)), RatNeg(RatMul(SinA(x), SinhL(y)))>>
\* far out, at x + iy with one part n ln 2: the value is z * 2^sc, where the
\* vanishing exponential is below every precision (|n| >= 30)
Far(f, x, y) ==
  LET n == IF f \in {"exp", "sinh", "cosh"} THEN x.n ELSE y.n
      sg(r) == IF n > 0 THEN r ELSE RatNeg(r)
  IN CASE f = "exp"  -> [sc |-> n, z |-> <<CosA(y), SinA(y)>>]
       [] f = "sinh" -> [sc |-> AbsI(n) - 1, z |-> <<sg(CosA(y)), SinA(y)>>]
       [] f = "cosh" -> [sc |-> AbsI(n) - 1, z |-> <<CosA(y), sg(SinA(y))>>]
       [] f = "sin"  -> [sc |-> AbsI(n) - 1, z |-> <<SinA(x), sg(CosA(x))>>]
       [] f = "cos"  -> [sc |-> AbsI(n) - 1, z |-> <<CosA(x), sg(RatNeg(SinA(x)))>>]
       [] f = "tan"  -> [sc |-> 0, z |-> <<R(0), sg(R(1))>>]
Cplx(f, x, y) ==
  CASE "p2" \in {x.k, y.k} -> Far(f, x, y)
    [] f = "exp" -> CExp(x, y)
    [] f = "sin" -> CSin(x, y)
    [] f = "cos" -> CCos(x, y)
    [] f = "sinh" -> CSinh(x, y)
    [] f = "cosh" -> CCosh(x, y)
    [] f = "tan" -> RDiv(QI, CSin(x, y), CCos(x, y))
    \* described by the number whose logarithm it is (for a call with a scale
    \* sh, that number over 2^sh)
    [] f \in {"ln", "expln"} -> <<x.v, y.v>>

(* Near zero: the first coefficients of the power series.  An observation   *)
(* of order j of a result v at z is (v - c0 - .. - c(j-1) z^(j-1)) / z^j,   *)
(* which is cj up to rounding and a multiple of z.                          *)
Series(f) ==
  CASE f = "exp" -> <<R(1), R(1), <<1, 2>>, <<1, 6>>>>
    [] f = "sin" -> <<R(0), R(1), R(0), <<-1, 6>>>>
    [] f = "cos" -> <<R(1), R(0), <<-1, 2>>, R(0)>>
    [] f = "tan" -> <<R(0), R(1), R(0), <<1, 3>>>>
    [] f = "asin" -> <<R(0), R(1), R(0), <<1, 6>>>>
    [] f = "sinh" -> <<R(0), R(1), R(0), <<1, 6>>>>
    [] f = "cosh" -> <<R(1), R(0), <<1, 2>>, R(0)>>
    [] f = "ln1p" -> <<R(0), R(1), <<-1, 2>>, <<1, 3>>>>      \* ln(1 + z)
    [] f = "sqrt1p" -> <<R(1), <<1, 2>>, <<-1, 8>>, <<1, 16>>>>   \* sqrt(1 + z)
    [] f = "atan" -> <<R(0), R(1), R(0), <<-1, 3>>>>          \* atan2(z, 1)

Call(e) ==
  CASE e.op = "real" -> answer' = Real(e.f, e.x)
    [] e.op = "atan2" -> answer' = Atan2(e.y, e.x)
    [] e.op = "cplx" -> answer' = Cplx(e.f, e.x, e.y)
    [] e.op = "series" -> answer' = Series(e.f)
    [] e.op = "session" -> answer' = <<>>
=============================================================================
