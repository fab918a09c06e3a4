-------------------------------- MODULE Cplx --------------------------------
(***************************************************************************)
(* Complex variables over a ring: the ring operations of T[i], conjugation,*)
(* multiplication and division by real scalars, division, and the queries  *)
(* squared norm, modulus, argument and principal square root.              *)
(***************************************************************************)
EXTENDS RingSession

Base == Tail(kind)
Re(z) == z[1]
Im(z) == z[2]
Norm(k, z) == LET s == Tail(k) IN RAdd(s, RMul(s, z[1], z[1]), RMul(s, z[2], z[2]))

\* division of a real scalar by a real scalar
SDiv(k, x, y) == IF k[1] = "int" THEN TDiv(x, y) ELSE RDiv(k, x, y)

CplxWrites == RingWrites \cup {"conj", "smul", "div", "sdiv", "sqr"}
CplxVal(e) ==
  CASE e.op = "conj" -> RConj(kind, Reg(e.a))
    [] e.op = "smul" -> LET x == FromJ(Base, e.x) z == Reg(e.a) IN <<RMul(Base, z[1], x), RMul(Base, z[2], x)>>
    [] e.op = "sdiv" -> LET x == FromJ(Base, e.x) z == Reg(e.a) IN <<SDiv(Base, z[1], x), SDiv(Base, z[2], x)>>
    [] e.op = "div"  -> RDiv(kind, Reg(e.a), Reg(e.b))
    [] e.op = "sqr"  -> RMul(kind, Reg(e.d), Reg(e.d))          \* x *= x
    [] OTHER -> RingVal(e)

(* The order of the rationals and integers, as signs *)
SgnI(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Sgn(k, x) == IF k[1] = "rat" THEN SgnI(x[1]) ELSE SgnI(x)

\* the signs (sr, si) of the parts of a root of z are those of the principal root
PrincipalSigns(k, z, sr, si) ==
  LET zi == Sgn(Tail(k), z[2]) IN
  /\ sr >= 0
  /\ IF zi # 0 THEN si = zi ELSE si >= 0
IsPrincipalRoot(k, z, s) ==
  /\ RMul(k, s, s) = z
  /\ PrincipalSigns(k, z, Sgn(Tail(k), s[1]), Sgn(Tail(k), s[2]))

CplxQueries == {"eq", "norm", "abs", "arg", "sqrt", "dump"}
CplxAnswer(e) ==
  CASE e.op = "eq" -> RingAnswer(e)
    [] e.op \in {"norm", "abs"} -> [y |-> Norm(kind, Reg(e.a))]
    [] e.op \in {"arg", "sqrt"} -> [z |-> Reg(e.a)]
    [] e.op = "dump" -> regs

Do(e) ==
  CASE e.op = "session" -> Open(e.kind, e.nr)
    [] e.op \in CplxWrites -> Write(e.d, CplxVal(e))
    [] e.op \in CplxQueries -> Ask(CplxAnswer(e))
=============================================================================
