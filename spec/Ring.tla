-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The algebraic tower on which the whole library is built.                *)
(*                                                                         *)
(* A KIND is a non-empty sequence of strings, read outside in:             *)
(*    <<"int">>                 the integers (i8..i128, and f32/f64 that   *)
(*                              hold integers)                             *)
(*    <<"gf2">> .. <<"gf7">>    prime fields                               *)
(*    <<"rat">>                 the rationals, <<num, den>>, den > 0       *)
(*    <<"free">>                the free associative ring Z<g1,g2,...>     *)
(*                              with involution (-i is the conjugate of    *)
(*                              generator i)                               *)
(*    <<"cplx">> \o k           k[i] with i*i = -1                         *)
(*    <<"poly">> \o k           polynomials over k                         *)
(*    <<"mat1">>..<<"mat4">> \o k   square matrices over k                 *)
(*                                                                         *)
(* Every element has exactly one representation, so that equality of       *)
(* elements is TLA+ equality.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Upto(n) == [i \in 1..n |-> i]

Primes == [gf2 |-> 2, gf3 |-> 3, gf5 |-> 5, gf7 |-> 7, gf11 |-> 11]
IsGf(k) == k[1] \in DOMAIN Primes
MatDim(s) == CASE s = "mat1" -> 1 [] s = "mat2" -> 2 [] s = "mat3" -> 3
               [] s = "mat4" -> 4 [] OTHER -> 0

RingKind(k) == Len(k) > 0

------------------------------------------------------------------------------
(* Rationals *)
AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(AbsI(n), AbsI(d))
                 s == IF d < 0 THEN -1 ELSE 1
             IN  IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
\* cross-cancelling keeps the intermediate numbers small (TLC has 32 bits)
RatMul(a, b) == LET x == Rat(a[1], b[2])
                    y == Rat(b[1], a[2])
                IN  <<x[1] * y[1], x[2] * y[2]>>
RatAdd(a, b) == LET g == Gcd(a[2], b[2])
                IN  Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RatNeg(a) == <<-a[1], a[2]>>
RatInv(a) == Rat(a[2], a[1])
RatLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RatLt(a, b) == a[1] * b[2] < b[1] * a[2]

------------------------------------------------------------------------------
(* The free associative ring: finite functions from words to non-zero ints *)
FreeZero == [w \in {} |-> 0]
FreeInt(n) == IF n = 0 THEN FreeZero ELSE [w \in {<<>>} |-> n]
FreeClean(f) == [w \in {v \in DOMAIN f : f[v] # 0} |-> f[w]]
FreeAt(f, w) == IF w \in DOMAIN f THEN f[w] ELSE 0
FreeAdd(a, b) == FreeClean([w \in DOMAIN a \cup DOMAIN b |-> FreeAt(a, w) + FreeAt(b, w)])
FreeNeg(a) == [w \in DOMAIN a |-> -a[w]]
FreeMul(a, b) ==
  LET W == {x \o y : x \in DOMAIN a, y \in DOMAIN b}
      Coef(w) == FoldLeft(LAMBDA s, i : s + FreeAt(a, SubSeq(w, 1, i)) * FreeAt(b, SubSeq(w, i + 1, Len(w))),
                          0, [j \in 1..(Len(w) + 1) |-> j - 1])
  IN  FreeClean([w \in W |-> Coef(w)])
WordConj(w) == [i \in 1..Len(w) |-> -w[Len(w) + 1 - i]]
FreeConj(a) == [w \in {WordConj(v) : v \in DOMAIN a} |-> a[WordConj(w)]]

------------------------------------------------------------------------------
RECURSIVE RZero(_), ROne(_), RInt(_, _), RAdd(_, _, _), RNeg(_, _), RMul(_, _, _), RConj(_, _)

\* strip the trailing zero coefficients: the canonical form of a polynomial
PolyNorm(z, a) ==
  LET n == FoldLeft(LAMBDA m, i : IF a[i] = z THEN m ELSE i, 0, Upto(Len(a)))
  IN  IF a = <<>> \/ a[Len(a)] # z THEN a ELSE SubSeq(a, 1, n)

SumOver(k, n, f(_)) == FoldLeft(LAMBDA acc, i : RAdd(k, acc, f(i)), RZero(k), Upto(n))

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

PolyAdd(k, a, b) ==
  LET m == Max2(Len(a), Len(b))
      c == [i \in 1..m |-> IF i > Len(a) THEN b[i] ELSE IF i > Len(b) THEN a[i] ELSE RAdd(k, a[i], b[i])]
  IN  IF Len(a) # Len(b) THEN c ELSE PolyNorm(RZero(k), c)

PolyMul(k, a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET la == Len(a)
           lb == Len(b)
           At(n) == LET lo == Max2(1, n + 1 - lb)
                        hi == Min2(la, n)
                    IN  SumOver(k, hi - lo + 1, LAMBDA t : RMul(k, a[lo + t - 1], b[n + 2 - lo - t]))
       IN  PolyNorm(RZero(k), [n \in 1..(la + lb - 1) |-> At(n)])

MatMulD(k, r, m, c, a, b) ==
  [i \in 1..r |-> [j \in 1..c |-> SumOver(k, m, LAMBDA t : RMul(k, a[i][t], b[t][j]))]]

RInt(k, n) ==
  CASE k[1] = "int" -> n
    [] IsGf(k) -> n % Primes[k[1]]
    [] k[1] = "rat" -> <<n, 1>>
    [] k[1] = "free" -> FreeInt(n)
    [] k[1] = "cplx" -> <<RInt(Tail(k), n), RZero(Tail(k))>>
    [] k[1] = "poly" -> PolyNorm(RZero(Tail(k)), <<RInt(Tail(k), n)>>)
    [] OTHER -> LET d == MatDim(k[1]) IN
                [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN RInt(Tail(k), n) ELSE RZero(Tail(k))]]

RZero(k) == RInt(k, 0)
ROne(k)  == RInt(k, 1)

RAdd(k, a, b) ==
  CASE k[1] = "int" -> a + b
    [] IsGf(k) -> (a + b) % Primes[k[1]]
    [] k[1] = "rat" -> RatAdd(a, b)
    [] k[1] = "free" -> FreeAdd(a, b)
    [] k[1] = "cplx" -> LET s == Tail(k) IN <<RAdd(s, a[1], b[1]), RAdd(s, a[2], b[2])>>
    [] k[1] = "poly" -> PolyAdd(Tail(k), a, b)
    [] OTHER -> LET d == MatDim(k[1]) s == Tail(k) IN
                [i \in 1..d |-> [j \in 1..d |-> RAdd(s, a[i][j], b[i][j])]]

RNeg(k, a) ==
  CASE k[1] = "int" -> -a
    [] IsGf(k) -> (-a) % Primes[k[1]]
    [] k[1] = "rat" -> RatNeg(a)
    [] k[1] = "free" -> FreeNeg(a)
    [] k[1] = "cplx" -> LET s == Tail(k) IN <<RNeg(s, a[1]), RNeg(s, a[2])>>
    [] k[1] = "poly" -> LET s == Tail(k) IN [i \in 1..Len(a) |-> RNeg(s, a[i])]
    [] OTHER -> LET d == MatDim(k[1]) s == Tail(k) IN
                [i \in 1..d |-> [j \in 1..d |-> RNeg(s, a[i][j])]]

RSub(k, a, b) == RAdd(k, a, RNeg(k, b))

RMul(k, a, b) ==
  CASE k[1] = "int" -> a * b
    [] IsGf(k) -> (a * b) % Primes[k[1]]
    [] k[1] = "rat" -> RatMul(a, b)
    [] k[1] = "free" -> FreeMul(a, b)
    [] k[1] = "cplx" -> LET s == Tail(k) IN
         <<RSub(s, RMul(s, a[1], b[1]), RMul(s, a[2], b[2])),
           RAdd(s, RMul(s, a[1], b[2]), RMul(s, a[2], b[1]))>>
    [] k[1] = "poly" -> PolyMul(Tail(k), a, b)
    [] OTHER -> LET d == MatDim(k[1]) IN MatMulD(Tail(k), d, d, d, a, b)

\* conjugation: identity on real scalars, involution on Z<..> and on k[i]
RConj(k, a) ==
  CASE k[1] = "free" -> FreeConj(a)
    [] k[1] = "cplx" -> <<a[1], RNeg(Tail(k), a[2])>>
    [] MatDim(k[1]) > 0 -> LET d == MatDim(k[1]) s == Tail(k) IN
                [i \in 1..d |-> [j \in 1..d |-> RConj(s, a[i][j])]]
    [] OTHER -> a

(* Fields *)
GfInv(p, a) == CHOOSE x \in 1..(p - 1) : (a * x) % p = 1
RECURSIVE RInv(_, _)
RInv(k, a) ==
  CASE IsGf(k) -> GfInv(Primes[k[1]], a)
    [] k[1] = "rat" -> RatInv(a)
    [] k[1] = "cplx" -> LET s == Tail(k)
                            n == RInv(s, RAdd(s, RMul(s, a[1], a[1]), RMul(s, a[2], a[2])))
                        IN  <<RMul(s, a[1], n), RNeg(s, RMul(s, a[2], n))>>
RDiv(k, a, b) == RMul(k, a, RInv(k, b))

\* truncating integer division (Rust's `/` on integers)
TDiv(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q

(* Evaluation: sum of a_i * x^i, coefficients on the left (Horner) *)
PolyEval(k, a, x) == FoldRight(LAMBDA c, y : RAdd(k, RMul(k, y, x), c), a, RZero(k))

(* Commutative kinds: where multiplication commutes *)
RECURSIVE Commutative(_)
Commutative(k) == IF k = <<>> THEN TRUE
                  ELSE k[1] # "free" /\ MatDim(k[1]) < 2 /\ Commutative(Tail(k))

------------------------------------------------------------------------------
(* Values as they appear in a JSON trace -> values of the model.           *)
RECURSIVE FromJ(_, _)
FromJ(k, j) ==
  CASE k[1] = "int" \/ IsGf(k) -> j
    [] k[1] = "rat" -> Rat(j[1], j[2])
    [] k[1] = "free" -> FoldLeft(LAMBDA acc, t : FreeAdd(acc, [w \in {t[2]} |-> t[1]]), FreeZero, j)
    [] k[1] = "cplx" -> <<FromJ(Tail(k), j[1]), FromJ(Tail(k), j[2])>>
    [] k[1] = "poly" -> PolyNorm(RZero(Tail(k)), [i \in 1..Len(j) |-> FromJ(Tail(k), j[i])])
    [] OTHER -> LET d == MatDim(k[1]) IN
                [i \in 1..d |-> [m \in 1..d |-> FromJ(Tail(k), j[i][m])]]
=============================================================================
