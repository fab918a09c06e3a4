----------------------------- MODULE ScalTrace ------------------------------
(* Observed: the library's result (p, v: panicked, value) and that of the   *)
(* ordinary operator (op_, ov), and both operands afterwards (la, lb).      *)
EXTENDS Scal, TraceLib
VARIABLE l

Seen(j) == IF ty'.sort = "ring" THEN FromJ(ty'.kind, j) ELSE j
\* equal as numbers: zeros of either sign are equal
Equal(v, w) == IF ty'.sort = "ieee" THEN SameFloat(v, w) \/ (Decode(v).c = "zero" /\ Decode(w).c = "zero") ELSE v = w
Exact(v, w) == IF ty'.sort = "ieee" THEN SameFloat(v, w) ELSE v = w

Do(e) ==
  CASE e.op = "session" -> Open([sort |-> e.sort, n |-> e.n, signed |-> e.sg, kind |-> e.kind], e.nr)
    [] e.op = "load" -> Write(e.d, Lit(e.v))
    [] e.op = "zero" -> Write(e.d, Const(0))
    [] e.op = "one" -> Write(e.d, Const(1))
    [] e.op = "conj" -> Write(e.d, Reg(e.a))
    [] e.op \in {"mul", "div"} -> Calc(e.op, e.d, e.a, e.b, IF e.out # "ok" \/ e.op_ THEN <<>> ELSE Lit(e.ov))
    [] OTHER -> out' = <<>> /\ UNCHANGED <<ty, regs>>

\* all products or quotients of one byte with every byte
RowGood(e) ==
  /\ e.vs = e.os
  /\ \A i \in 1..256 :
       LET r == IF e.f = "mul" THEN WordMul(ty', <<e.a>>, <<i - 1>>) ELSE WordDiv(ty', <<e.a>>, <<i - 1>>)
       IN  IF ~r.over THEN e.vs[i] = r.v[1] ELSE e.vs[i] = -1 \/ (e.f = "mul" /\ e.vs[i] = r.v[1])

Good(e) ==
  CASE e.op \in {"session", "load"} -> TRUE
    [] e.op \in {"zero", "one", "conj"} ->
         IF e.op = "conj" THEN Exact(Seen(e.v), regs'[e.d + 1]) ELSE Equal(Seen(e.v), regs'[e.d + 1])
    [] e.op \in {"mul", "div"} ->
         /\ e.p = e.op_
         /\ Exact(Seen(e.la), Reg(e.a)) /\ Exact(Seen(e.lb), Reg(e.b))
         /\ CASE out'[1] = "panic" -> e.p
              [] out'[1] = "over" -> e.p \/ (Seen(e.v) = out'[2] /\ Seen(e.ov) = out'[2])
              [] out'[1] = "any" -> ~e.p /\ Exact(Seen(e.v), Seen(e.ov))
              [] out'[1] = "nan" -> ~e.p /\ NaNs(e.v)
              [] OTHER -> ~e.p /\ Exact(Seen(e.v), out'[2])
    [] e.op = "neutral" -> \A i \in DOMAIN e.vs : Equal(Seen(e.vs[i]), Reg(e.a))
    [] e.op = "row" -> RowGood(e)
    [] e.op = "dump" -> \A i \in DOMAIN regs' : Exact(Seen(e.regs[i]), regs'[i])
Matches(e) == e.out = "ok" /\ Good(e)

TInit == ty = [sort |-> "word", n |-> 1, signed |-> TRUE, kind |-> <<"int">>] /\ regs = <<>> /\ out = <<>> /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ Do(Trace[l])
         /\ Report(l, Matches(Trace[l]), <<out', IF "d" \in DOMAIN Trace[l] THEN regs'[Trace[l].d + 1] ELSE <<>>>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<scvars, l>>
=============================================================================
