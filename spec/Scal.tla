-------------------------------- MODULE Scal --------------------------------
(***************************************************************************)
(* The scalar building blocks: zero, one, conjugation and the by-reference *)
(* product and quotient, for                                               *)
(*   sort "word"  fixed-width integers of n bytes: the value is the        *)
(*                sequence of its bytes, lowest first (two's complement)   *)
(*   sort "ieee"  binary32 and binary64: likewise the bytes                *)
(*   sort "ring"  user types, which are rings or fields of module Ring     *)
(***************************************************************************)
EXTENDS Ring

VARIABLES ty,    \* the type of this session: [sort, n, signed, kind]
          regs,  \* its variables
          out    \* what the last operation did: [p, v] (panicked, value)
scvars == <<ty, regs, out>>

Reg(i) == regs[i + 1]

------------------------------------------------------------------------------
(* Words *)
Ones(n, x) == [i \in 1..n |-> x]
WInt(n, i) == [j \in 1..n |-> IF j = 1 THEN i % 256 ELSE IF i < 0 THEN 255 ELSE 0]   \* -128 <= i < 128
Negative(t, a) == t.signed /\ a[Len(a)] >= 128
Extend(t, a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF Negative(t, a) THEN 255 ELSE 0]
Low(a, n) == SubSeq(a, 1, n)

\* carries: digits that may exceed 255 -> bytes
Carry(d) == FoldLeft(LAMBDA acc, x : LET s == x + acc[2] IN <<Append(acc[1], s % 256), s \div 256>>, <<<<>>, 0>>, d)[1]
WAdd(a, b) == Carry([i \in 1..Len(a) |-> a[i] + b[i]])
WNeg(a) == Carry([i \in 1..Len(a) |-> (255 - a[i]) + (IF i = 1 THEN 1 ELSE 0)])
WMul(a, b) == Carry([i \in 1..Len(a) |-> FoldLeft(LAMBDA s, j : s + a[j] * b[(i + 1) - j], 0, Upto(i))])
WZero(n) == Ones(n, 0)
Fits(t, a, n) == a = Extend(t, Low(a, n), Len(a))

\* unsigned comparison and division of magnitudes, bit by bit
RECURSIVE WLess_(_, _, _)
WLess_(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE WLess_(a, b, i - 1)
WLess(a, b) == WLess_(a, b, Len(a))
Bit(a, i) == (a[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2
RECURSIVE WDivMod(_, _, _, _, _)
WDivMod(a, b, i, q, r) ==
  IF i = 0 THEN <<q, r>>
  ELSE LET r2 == Carry([j \in 1..Len(r) |-> 2 * r[j] + (IF j = 1 THEN Bit(a, i) ELSE 0)])
           ge == ~WLess(r2, b)
           r3 == IF ge THEN WAdd(r2, WNeg(b)) ELSE r2
           q2 == Carry([j \in 1..Len(q) |-> 2 * q[j] + (IF j = 1 /\ ge THEN 1 ELSE 0)])
       IN  WDivMod(a, b, i - 1, q2, r3)
Magnitude(t, a) == LET x == Extend(t, a, Len(a) + 1) IN IF Negative(t, a) THEN WNeg(x) ELSE x
WQuot(t, a, b) ==
  LET n == Len(a)
      q == WDivMod(Magnitude(t, a), Magnitude(t, b), 8 * (n + 1), WZero(n + 1), WZero(n + 1))[1]
  IN  IF Negative(t, a) # Negative(t, b) THEN WNeg(q) ELSE q

\* [p, v]: whether the checked operation overflows, and the wrapped value
WordMul(t, a, b) ==
  LET n == Len(a)
      f == WMul(Extend(t, a, 2 * n), Extend(t, b, 2 * n))
  IN  [over |-> ~Fits(t, f, n), v |-> Low(f, n)]
WordDiv(t, a, b) ==
  LET n == Len(a)
  IN  IF b = WZero(n) THEN [over |-> TRUE, v |-> <<>>]
      ELSE LET q == WQuot(t, a, b) IN [over |-> ~Fits(t, q, n), v |-> Low(q, n)]

------------------------------------------------------------------------------
(* Floating point numbers: what has a short binary expansion, exactly;     *)
(* zeros, infinities and NaN, by the rules of IEEE 754.                    *)
(* Decoded: [c, s, m, e]: class, sign, odd mantissa, exponent              *)
FSign(a) == a[Len(a)] \div 128
FExp(a) == LET n == Len(a) IN
           IF n = 4 THEN (a[4] % 128) * 2 + a[3] \div 128 ELSE (a[8] % 128) * 16 + a[7] \div 16
MaxExp(n) == IF n = 4 THEN 255 ELSE 2047
\* the leading 23 bits of the mantissa, and whether others follow
FTop(a) == IF Len(a) = 4 THEN (a[3] % 128) * 65536 + a[2] * 256 + a[1]
           ELSE (a[7] % 16) * 524288 + a[6] * 2048 + a[5] * 8 + a[4] \div 32
FRest(a) == Len(a) = 8 /\ (a[4] % 32 # 0 \/ a[3] # 0 \/ a[2] # 0 \/ a[1] # 0)
RECURSIVE Odd(_, _)
Odd(m, e) == IF m % 2 = 0 THEN Odd(m \div 2, e + 1) ELSE <<m, e>>
Bias(n) == IF n = 4 THEN 127 ELSE 1023
Decode(a) ==
  LET n == Len(a)
      x == FExp(a)
      top == FTop(a)
      none == FRest(a)
  IN  CASE x = MaxExp(n) -> [c |-> IF top = 0 /\ ~none THEN "inf" ELSE "nan", s |-> FSign(a), m |-> 0, e |-> 0]
        [] x = 0 -> [c |-> IF top = 0 /\ ~none THEN "zero" ELSE "other", s |-> FSign(a), m |-> 0, e |-> 0]
        [] none -> [c |-> "other", s |-> FSign(a), m |-> 0, e |-> 0]
        [] OTHER -> LET o == Odd(8388608 + top, x - Bias(n) - 23)
                    IN  [c |-> "fin", s |-> FSign(a), m |-> o[1], e |-> o[2]]
\* mantissa with leading bit at 2^23
RECURSIVE Lead(_, _)
Lead(m, e) == IF m < 8388608 THEN Lead(2 * m, e - 1) ELSE <<m, e>>
Encode(n, f) ==
  LET l == Lead(f.m, f.e)
      x == CASE f.c = "fin" -> l[2] + 23 + Bias(n) [] f.c = "zero" -> 0 [] OTHER -> MaxExp(n)
      t == IF f.c = "fin" THEN l[1] - 8388608 ELSE 0
  IN  IF n = 4 THEN <<t % 256, (t \div 256) % 256, (x % 2) * 128 + t \div 65536, f.s * 128 + x \div 2>>
      ELSE <<0, 0, 0, (t % 8) * 32, (t \div 8) % 256, (t \div 2048) % 256,
             (x % 16) * 16 + t \div 524288, f.s * 128 + x \div 16>>
F(c, s) == [c |-> c, s |-> s, m |-> 1, e |-> 0]
Fin(s, m, e) == LET o == Odd(m, e) IN [c |-> "fin", s |-> s, m |-> o[1], e |-> o[2]]
Unknown == F("other", 0)
Normal(n, f) == f.c # "fin" \/ LET x == Lead(f.m, f.e)[2] + 23 + Bias(n) IN x > 0 /\ x < MaxExp(n)
IeeeMul(a, b) ==
  LET s == (a.s + b.s) % 2 IN
  CASE a.c = "nan" \/ b.c = "nan" -> F("nan", 0)
    [] a.c = "inf" -> IF b.c = "zero" THEN F("nan", 0) ELSE F("inf", s)
    [] b.c = "inf" -> IF a.c = "zero" THEN F("nan", 0) ELSE F("inf", s)
    [] a.c = "zero" \/ b.c = "zero" -> F("zero", s)
    [] a.c = "other" \/ b.c = "other" -> Unknown
    [] a.m <= 16777215 \div b.m -> Fin(s, a.m * b.m, a.e + b.e)
    [] OTHER -> Unknown
IeeeDiv(a, b) ==
  LET s == (a.s + b.s) % 2 IN
  CASE a.c = "nan" \/ b.c = "nan" -> F("nan", 0)
    [] a.c = "inf" -> IF b.c = "inf" THEN F("nan", 0) ELSE F("inf", s)
    [] b.c = "inf" -> F("zero", s)
    [] b.c = "zero" -> IF a.c = "zero" THEN F("nan", 0) ELSE F("inf", s)
    [] a.c = "zero" -> F("zero", s)
    [] a.c = "other" \/ b.c = "other" -> Unknown
    [] a.m % b.m = 0 -> Fin(s, a.m \div b.m, a.e - b.e)
    [] OTHER -> Unknown
\* a NaN has no particular bytes: any of them
NaNs(v) == Decode(v).c = "nan"
SameFloat(v, w) == v = w \/ (NaNs(v) /\ NaNs(w))

------------------------------------------------------------------------------
FInt(n, i) == Encode(n, IF i = 0 THEN F("zero", 0) ELSE Fin(0, 1, 0))
Const(i) == CASE ty.sort = "word" -> WInt(ty.n, i)
              [] ty.sort = "ieee" -> FInt(ty.n, i)
              [] OTHER -> RInt(ty.kind, i)
Lit(j) == IF ty.sort = "ring" THEN FromJ(ty.kind, j) ELSE j
\* a formal quotient: generators g_i / g_j of the free ring
IsGen(a) == \E g \in 1..999 : a = [w \in {<<g>>} |-> 1]
Gen(a) == CHOOSE g \in 1..999 : a = [w \in {<<g>>} |-> 1]
RingQuot(a, b) ==
  IF ty.kind[1] = "free" THEN [w \in {<<100000 + 1000 * Gen(a) + Gen(b)>>} |-> 1] ELSE RDiv(ty.kind, a, b)

\* the result of a product or quotient: <<"ok", v>>, <<"over", v>> (wraps or
\* panics, as the ordinary operator does), <<"panic", v>>, or <<"any", v>>
Outcome(op, a, b) ==
  CASE ty.sort = "word" -> LET r == IF op = "mul" THEN WordMul(ty, a, b) ELSE WordDiv(ty, a, b)
                           IN  <<IF ~r.over THEN "ok" ELSE IF op = "mul" THEN "over" ELSE "panic", r.v>>
    [] ty.sort = "ieee" -> LET r == IF op = "mul" THEN IeeeMul(Decode(a), Decode(b)) ELSE IeeeDiv(Decode(a), Decode(b))
                           IN  IF r.c = "other" \/ ~Normal(ty.n, r) THEN <<"any", <<>>>>
                               ELSE IF r.c = "nan" THEN <<"nan", <<>>>> ELSE <<"ok", Encode(ty.n, r)>>
    [] OTHER -> IF op = "mul" THEN <<"ok", RMul(ty.kind, a, b)>>
                ELSE IF ty.kind[1] # "free" /\ b = RZero(ty.kind) THEN <<"panic", <<>>>>
                ELSE <<"ok", RingQuot(a, b)>>

Open(t, n) == ty' = t /\ regs' = [i \in 1..n |-> <<>>] /\ out' = <<>>
Write(d, v) == regs' = [regs EXCEPT ![d + 1] = v] /\ out' = <<>> /\ UNCHANGED ty
\* v: the value the ordinary operator gave, where the model leaves it open
Calc(op, d, a, b, v) ==
  LET r == Outcome(op, Reg(a), Reg(b)) IN
  /\ out' = r
  /\ regs' = [regs EXCEPT ![d + 1] = CASE r[1] = "ok" -> r[2]
                                       [] r[1] = "panic" -> @
                                       [] OTHER -> IF v = <<>> THEN @ ELSE v]
  /\ UNCHANGED ty
=============================================================================
