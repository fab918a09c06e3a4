------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* Statically sized matrices and vectors.  A session fixes three           *)
(* dimensions l, m, n and has variables in the groups                      *)
(*    a: l x m    b: m x n    c: l x n    q: n x n                         *)
(*    u: vectors of dimension l           v: vectors of dimension m        *)
(* A matrix is the sequence of its rows.                                   *)
(***************************************************************************)
EXTENDS Ring

VARIABLES kind, dim, st, out
stvars == <<kind, dim, st, out>>

Shape(d, g) == CASE g = "a" -> <<d.l, d.m>> [] g = "b" -> <<d.m, d.n>>
                 [] g = "c" -> <<d.l, d.n>> [] g = "q" -> <<d.n, d.n>>
VDim(d, g) == IF g = "u" THEN d.l ELSE d.m
IsVec(g) == g \in {"u", "v"}

MZero(k, s) == [i \in 1..s[1] |-> [j \in 1..s[2] |-> RZero(k)]]
MOne(k, s) == [i \in 1..s[1] |-> [j \in 1..s[2] |-> IF i = j THEN ROne(k) ELSE RZero(k)]]
MMap(f(_), a) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> f(a[i][j])]]
MZip(f(_, _), a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> f(a[i][j], b[i][j])]]
VMap(f(_), a) == [i \in 1..Len(a) |-> f(a[i])]
VZip(f(_, _), a, b) == [i \in 1..Len(a) |-> f(a[i], b[i])]
MatMul(k, s1, s2, a, b) == MatMulD(k, s1[1], s1[2], s2[2], a, b)
Dot(k, u, v) == SumOver(k, Len(u), LAMBDA i : RMul(k, u[i], v[i]))
MatVec(k, a, v) == [i \in 1..Len(a) |-> SumOver(k, Len(v), LAMBDA t : RMul(k, a[i][t], v[t]))]
MFromJ(k, j) == [i \in 1..Len(j) |-> [c \in 1..Len(j[i]) |-> FromJ(k, j[i][c])]]
VFromJ(k, j) == [i \in 1..Len(j) |-> FromJ(k, j[i])]

X(g, i) == st[g][i + 1]
Lft(e) == IF e.f \in {"av", "ar"} THEN X(e.g, e.d) ELSE X(e.g, e.a)

\* operations inside one group
GroupWrites == {"load", "zero", "one", "clone", "add", "sub", "neg", "conj", "scale", "set"}
GroupVal(e) ==
  LET k == kind  g == e.g
      lin2(op(_, _), a, b) == IF IsVec(g) THEN VZip(op, a, b) ELSE MZip(op, a, b)
      lin1(op(_), a) == IF IsVec(g) THEN VMap(op, a) ELSE MMap(op, a)
  IN
  CASE e.op = "load" -> IF IsVec(g) THEN VFromJ(k, e.v) ELSE MFromJ(k, e.v)
    [] e.op = "zero" -> IF IsVec(g) THEN [i \in 1..VDim(dim, g) |-> RZero(k)] ELSE MZero(k, Shape(dim, g))
    [] e.op = "one" -> MOne(k, Shape(dim, g))
    [] e.op = "clone" -> X(g, e.a)
    [] e.op = "add" -> lin2(LAMBDA x, y : RAdd(k, x, y), Lft(e), X(g, e.b))
    [] e.op = "sub" -> lin2(LAMBDA x, y : RSub(k, x, y), Lft(e), X(g, e.b))
    [] e.op = "neg" -> lin1(LAMBDA x : RNeg(k, x), X(g, e.a))
    [] e.op = "conj" -> lin1(LAMBDA x : RConj(k, x), X(g, e.a))
    [] e.op = "scale" -> LET y == FromJ(k, e.x) IN lin1(LAMBDA x : RMul(k, x, y), Lft(e))
    [] e.op = "set" -> [X(g, e.d) EXCEPT ![e.i + 1] = FromJ(k, e.x)]

\* operations between groups: c = a b, c *= q, b *= q, u = a v
CrossWrites == {"mul", "mulas", "mv", "qq"}
CrossVal(e) ==
  CASE e.op = "mul" -> MatMul(kind, Shape(dim, "a"), Shape(dim, "b"), X("a", e.a), X("b", e.b))
    [] e.op = "mulas" -> MatMul(kind, Shape(dim, e.g), Shape(dim, "q"), X(e.g, e.d), X("q", e.b))
    [] e.op = "qq" -> MatMul(kind, Shape(dim, "q"), Shape(dim, "q"), X("q", e.a), X("q", e.b))
    [] e.op = "mv" -> MatVec(kind, X("a", e.a), X("v", e.b))
Target(e) == CASE e.op = "mul" -> "c" [] e.op = "qq" -> "q" [] e.op = "mv" -> "u" [] OTHER -> e.g

Queries == {"dot", "get", "iter", "eq", "dump"}
Answer(e) ==
  CASE e.op = "dot" -> Dot(kind, X(e.g, e.a), X(e.g, e.b))
    [] e.op = "get" -> X(e.g, e.a)[e.i + 1]
    [] e.op = "iter" -> X(e.g, e.a)
    [] e.op = "eq" -> X(e.g, e.a) = X(e.g, e.b)
    [] e.op = "dump" -> st

\* the answer of an operation: rejected (a panic), or a value
Nothing == [rej |-> FALSE, y |-> <<>>]
Rejected == [rej |-> TRUE, y |-> <<>>]

Open(k, d, nr) ==
  /\ kind' = k /\ dim' = d /\ out' = Nothing
  /\ st' = [g \in {"a", "b", "c", "q", "u", "v"} |->
              [i \in 1..nr |-> IF IsVec(g) THEN [t \in 1..VDim(d, g) |-> RZero(k)] ELSE MZero(k, Shape(d, g))]]
Put(g, d, v) == /\ st' = [st EXCEPT ![g][d + 1] = v]
                /\ out' = Nothing /\ UNCHANGED <<kind, dim>>
Do(e) ==
  CASE e.op = "session" -> Open(e.kind, [l |-> e.dim[1], m |-> e.dim[2], n |-> e.dim[3]], e.nr)
    [] e.op = "set" /\ e.i >= Len(X(e.g, e.d)) -> out' = Rejected /\ UNCHANGED <<kind, dim, st>>
    [] e.op = "get" /\ e.i >= Len(X(e.g, e.a)) -> out' = Rejected /\ UNCHANGED <<kind, dim, st>>
    [] e.op \in GroupWrites -> Put(e.g, e.d, GroupVal(e))
    [] e.op \in CrossWrites -> Put(Target(e), e.d, CrossVal(e))
    [] e.op \in Queries -> out' = [rej |-> FALSE, y |-> Answer(e)] /\ UNCHANGED <<kind, dim, st>>
=============================================================================
