------------------------------ MODULE StaticMC ------------------------------
(* Exhaustive over a finite field and small dimensions: all pairs of        *)
(* matrices a: L x M, b: M x N, with vectors and square factors derived     *)
(* from them; every operation.  Emitted and replayed.                       *)
EXTENDS Static, Json
CONSTANTS K, L, M, N, Emit

Elems == 0..(Primes[K] - 1)
Mats(r, c) == [1..r -> [1..c -> Elems]]
k0 == <<K>>
d0 == [l |-> L, m |-> M, n |-> N]
VARIABLES sid, pc

\* values for the remaining variables, derived from a and b
Pad(mx, r, c) == [i \in 1..r |-> [j \in 1..c |-> IF i <= Len(mx) /\ j <= Len(mx[1]) THEN mx[i][j] ELSE (i + 2 * j) % Primes[K]]]
Second(s) == Pad(s[2], L, M)
Square(s) == Pad(s[1], N, N)
Vec(s) == Pad(s[2], 1, M)[1]

E1(op, g, d, a, b, f) == [op |-> op, g |-> g, d |-> d, a |-> a, b |-> b, f |-> f]
Script(s) == <<
  [op |-> "load", g |-> "a", d |-> 0, v |-> s[1]], [op |-> "load", g |-> "b", d |-> 0, v |-> s[2]],
  [op |-> "load", g |-> "a", d |-> 1, v |-> Second(s)], [op |-> "load", g |-> "q", d |-> 0, v |-> Square(s)],
  [op |-> "load", g |-> "v", d |-> 0, v |-> Vec(s)],
  E1("mul", "c", 0, 0, 0, "rr"), E1("mul", "c", 1, 0, 0, "vv"), E1("eq", "c", 0, 0, 1, ""),
  E1("mulas", "c", 0, 0, 0, "ar"), E1("mulas", "c", 1, 1, 0, "av"), E1("mulas", "b", 0, 0, 0, "ar"),
  E1("mul", "c", 1, 0, 0, "rr"), E1("eq", "c", 0, 0, 1, ""),
  E1("mv", "u", 0, 0, 0, "rr"), E1("dot", "v", 0, 0, 0, "vr"),
  E1("add", "a", 1, 1, 0, "ar"), E1("sub", "a", 1, 0, 1, "vv"), E1("neg", "a", 1, 1, 0, ""), E1("eq", "a", 0, 0, 1, "") >>
Init == /\ sid \in Mats(L, M) \X Mats(M, N)
        /\ kind = k0 /\ dim = d0 /\ out = Nothing /\ pc = 0
        /\ st = [g \in {"a", "b", "c", "q", "u", "v"} |->
                  [i \in 1..2 |-> IF IsVec(g) THEN [t \in 1..VDim(d0, g) |-> 0] ELSE MZero(k0, Shape(d0, g))]]
Step == pc < Len(Script(sid)) /\ Do(Script(sid)[pc + 1]) /\ pc' = pc + 1 /\ UNCHANGED sid
Spec == Init /\ [][Step]_<<stvars, sid, pc>>
EmitStep == IF Emit /\ pc = 0 THEN PrintT(<<"EMIT", ToJson(Script(sid))>>) ELSE TRUE

A == sid[1]
B == sid[2]
C2 == Second(sid)
S == Square(sid)
V == Vec(sid)
mul(r, m, c, x, y) == MatMulD(k0, r, m, c, x, y)
plus(x, y) == MZip(LAMBDA p, q : RAdd(k0, p, q), x, y)
Laws == pc = 0 =>
  /\ mul(L, N, N, mul(L, M, N, A, B), S) = mul(L, M, N, A, mul(M, N, N, B, S))
  /\ mul(L, M, N, plus(A, C2), B) = plus(mul(L, M, N, A, B), mul(L, M, N, C2, B))
  /\ mul(L, L, M, MOne(k0, <<L, L>>), A) = A /\ mul(L, M, M, A, MOne(k0, <<M, M>>)) = A
  /\ plus(A, MZero(k0, <<L, M>>)) = A
  \* the matrix-vector product is the product with the one-column matrix
  /\ [i \in 1..L |-> <<MatVec(k0, A, V)[i]>>] = mul(L, M, 1, A, [i \in 1..M |-> <<V[i]>>])
  /\ Dot(k0, V, V) = mul(1, M, 1, <<V>>, [i \in 1..M |-> <<V[i]>>])[1][1]
\* in-place multiplication associates with what was computed before
Assoc == pc = Len(Script(sid)) => st["c"][1] = st["c"][2]
=============================================================================
