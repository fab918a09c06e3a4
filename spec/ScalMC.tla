------------------------------- MODULE ScalMC -------------------------------
(* The byte arithmetic of Scal is integer arithmetic: every pair of bytes,  *)
(* signed and unsigned, and boundary values of two-byte words; the floating *)
(* point coding is a bijection on short mantissas; zero and one are neutral.*)
EXTENDS Scal
CONSTANTS Step
VARIABLES sg, wide
mvars == <<scvars, sg, wide>>
Pick == {i \in 0..255 : i % Step = 0} \cup {1, 2, 126, 127, 128, 129, 254, 255}
\* two bytes: only small products stay inside the integers TLC has
Pick2 == {<<lo, hi>> : lo \in {0, 1, 127, 255}, hi \in {0, 1, 127, 128, 255}}
T(n) == [sort |-> "word", n |-> n, signed |-> sg, kind |-> <<"int">>]
Init == /\ sg \in BOOLEAN /\ wide \in BOOLEAN
        /\ ty = [sort |-> "word", n |-> IF wide THEN 2 ELSE 1, signed |-> sg, kind |-> <<"int">>]
        /\ out = <<>>
        /\ IF wide THEN regs \in {<<p, q>> : p \in Pick2, q \in Pick2} ELSE regs \in {<<<<p>>, <<q>>>> : p \in 0..255, q \in Pick}
Next == FALSE /\ UNCHANGED mvars
Spec == Init /\ [][Next]_mvars

Base == IF wide THEN 65536 ELSE 256
U(a) == IF wide THEN a[1] + 256 * a[2] ELSE a[1]
I(a) == IF Negative(ty, a) THEN U(a) - Base ELSE U(a)
\* inside the type
In(i) == IF sg THEN (-(Base \div 2)) <= i /\ i < (Base \div 2) ELSE 0 <= i /\ i < Base
x == regs[1]
y == regs[2]
\* 65535 * 65535 is out of reach of TLC's own integers
Reach == ~wide \/ sg \/ I(x) < 32768 \/ I(y) < 32768
Ints == Reach =>
  /\ LET r == WordMul(ty, x, y)
         i == I(x) * I(y)
     IN  r.over = ~In(i) /\ U(r.v) = i % Base
  /\ IF I(y) = 0 THEN WordDiv(ty, x, y).over
     ELSE LET r == WordDiv(ty, x, y)
              i == TDiv(I(x), I(y))
          IN  r.over = ~In(i) /\ (In(i) => I(r.v) = i)
  /\ I(WInt(ty.n, 0)) = 0 /\ I(WInt(ty.n, 1)) = 1
  /\ WAdd(x, WInt(ty.n, 0)) = x /\ WordMul(ty, x, WInt(ty.n, 1)) = [over |-> FALSE, v |-> x]
  /\ WordDiv(ty, x, WInt(ty.n, 1)) = [over |-> FALSE, v |-> x]
  /\ WAdd(x, WNeg(x)) = WZero(ty.n) /\ WAdd(x, y) = WAdd(y, x) /\ WMul(x, y) = WMul(y, x)
\* floating point: m * 2^e with small m
Floats == \A n \in {4, 8} : \A s \in {0, 1} :
  LET f == Fin(s, 2 * U(x) + 1, (U(y) % 64) - 32)
      one == Fin(0, 1, 0)
  IN  /\ Decode(Encode(n, f)) = f
      /\ IeeeMul(f, one) = f /\ IeeeMul(one, f) = f /\ IeeeDiv(f, one) = f /\ IeeeDiv(f, f) = one
      /\ (~wide => LET g == Fin(1, (U(y) % 64) + 1, 3) IN IeeeDiv(IeeeMul(f, g), g) = f)
      /\ FInt(n, 1) = Encode(n, one) /\ Decode(FInt(n, 0)).c = "zero"
=============================================================================
