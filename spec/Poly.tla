-------------------------------- MODULE Poly --------------------------------
(* Polynomial variables: the ring operations, and evaluation.               *)
EXTENDS RingSession

Base == Tail(kind)
PolyAnswer(e) ==
  CASE e.op = "eval" -> [y |-> PolyEval(Base, Reg(e.a), FromJ(Base, e.x))]
    [] OTHER -> RingAnswer(e)

Do(e) ==
  CASE e.op = "session" -> Open(e.kind, e.nr)
    [] e.op \in RingWrites -> Write(e.d, RingVal(e))
    [] e.op \in {"eq", "eval"} -> Ask(PolyAnswer(e))
    [] e.op = "dump" -> Ask(regs)
=============================================================================
