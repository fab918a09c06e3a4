------------------------------- MODULE Tower --------------------------------
(* Rings nested in each other, used by generic code through the ring        *)
(* interface only: the kind of a session is a tower such as                 *)
(* <<"poly", "mat2", "cplx", "free">>.                                      *)
EXTENDS RingSession

RECURSIVE RPow(_, _, _)
RPow(k, a, n) == IF n = 0 THEN ROne(k) ELSE RMul(k, RPow(k, a, n - 1), a)

TowerVal(e) ==
  CASE e.op = "pow"  -> RPow(kind, Reg(e.a), e.n)
    [] e.op = "acc"  -> RAdd(kind, Reg(e.d), RMul(kind, Reg(e.a), Reg(e.b)))
    [] e.op = "comm" -> RSub(kind, RMul(kind, Reg(e.a), Reg(e.b)), RMul(kind, Reg(e.b), Reg(e.a)))
    [] OTHER -> RingVal(e)

Do(e) ==
  CASE e.op = "session" -> Open(e.kind, e.nr)
    [] e.op \in RingWrites \cup {"pow", "acc", "comm"} -> Write(e.d, TowerVal(e))
    [] e.op \in RingQueries -> Ask(RingAnswer(e))
    [] e.op = "dump" -> Ask(regs)
=============================================================================
