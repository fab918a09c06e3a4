------------------------------- MODULE Dense -------------------------------
(***************************************************************************)
(* Dynamically sized matrices and vectors, and the lazy expressions over   *)
(* them.                                                                   *)
(*                                                                         *)
(* A program has matrix variables and vector variables.  An expression is  *)
(* a tree; its leaves are variables (by reference or by value), arrays,    *)
(* slices, generator functions and the constructors eye, zeros, ones and   *)
(* same.  The specification gives each tree                                *)
(*    - its value (or Bad, when some operation in it is applied to         *)
(*      operands whose shapes do not fit): MX, VX                          *)
(*    - the calls of user functions needed to compute given entries of it: *)
(*      MCalls, VCalls.                                                    *)
(* Programs evaluate trees into variables, ask for single entries, assign  *)
(* to single elements, and add or subtract trees in place.                 *)
(***************************************************************************)
EXTENDS Ring

VARIABLES kind, ms, vs, out
dvars == <<kind, ms, vs, out>>

\* a matrix: numbers of rows and columns, and the sequence of its rows
Mat(r, c, f(_, _)) == [r |-> r, c |-> c, v |-> [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]]
BadM == [r |-> -1, c |-> -1, v |-> <<>>]
IsM(a) == a.r >= 0
\* a vector, as the result of an expression
Vec(n, f(_)) == [ok |-> TRUE, v |-> [i \in 1..n |-> f(i)]]
BadV == [ok |-> FALSE, v |-> <<>>]

MJ(k, j) == Mat(j.r, j.c, LAMBDA i, c : FromJ(k, j.v[i][c]))
VJ(k, j) == [i \in 1..Len(j) |-> FromJ(k, j[i])]

------------------------------------------------------------------------------
(* Scalars *)
FreeGen(f) == (CHOOSE w \in DOMAIN f : TRUE)[1]
\* the quotient of two generators is another generator: division is uninterpreted
EDiv(k, a, b) ==
  CASE k[1] = "int" -> TDiv(a, b)
    [] k[1] = "free" -> [w \in {<<100000 + 1000 * FreeGen(a) + FreeGen(b)>>} |-> 1]
    [] OTHER -> RDiv(k, a, b)
Bin(k, n, a, b) ==
  CASE n = "add" -> RAdd(k, a, b) [] n = "sub" -> RSub(k, a, b)
    [] n = "mule" -> RMul(k, a, b) [] n = "dive" -> EDiv(k, a, b)
Fun1(k, x, a) ==
  CASE x.fn = "id" -> a [] x.fn = "neg" -> RNeg(k, a)
    [] x.fn = "lmul" -> RMul(k, FromJ(k, x.x), a) [] x.fn = "rmul" -> RMul(k, a, FromJ(k, x.x))
    [] x.fn = "addc" -> RAdd(k, a, FromJ(k, x.x)) [] x.fn = "const" -> FromJ(k, x.x)
Fun2(k, x, a, b) ==
  CASE x.fn = "fst" -> a [] x.fn = "snd" -> b
    [] x.fn = "sub" -> RSub(k, a, b) [] x.fn = "rsub" -> RSub(k, b, a)
    [] x.fn = "mul" -> RMul(k, a, b) [] x.fn = "rmul" -> RMul(k, b, a)
Binary == {"add", "sub", "mule", "dive"}

------------------------------------------------------------------------------
(* The value of an expression *)
MProd(k, a, b) == IF IsM(a) /\ IsM(b) /\ a.c = b.r
                  THEN Mat(a.r, b.c, LAMBDA i, j : SumOver(k, a.c, LAMBDA t : RMul(k, a.v[i][t], b.v[t][j])))
                  ELSE BadM
MOp2(a, b, f(_, _)) == IF IsM(a) /\ IsM(b) /\ a.r = b.r /\ a.c = b.c
                       THEN Mat(a.r, a.c, LAMBDA i, j : f(a.v[i][j], b.v[i][j])) ELSE BadM
MOp1(a, f(_)) == IF IsM(a) THEN Mat(a.r, a.c, LAMBDA i, j : f(a.v[i][j])) ELSE BadM
VOp2(a, b, f(_, _)) == IF a.ok /\ b.ok /\ Len(a.v) = Len(b.v)
                       THEN Vec(Len(a.v), LAMBDA i : f(a.v[i], b.v[i])) ELSE BadV
VOp1(a, f(_)) == IF a.ok THEN Vec(Len(a.v), LAMBDA i : f(a.v[i])) ELSE BadV
MTrans(a, f(_)) == IF IsM(a) THEN Mat(a.c, a.r, LAMBDA i, j : f(a.v[j][i])) ELSE BadM
VDiag(k, a) == IF a.ok THEN Mat(Len(a.v), Len(a.v), LAMBDA i, j : IF i = j THEN a.v[i] ELSE RZero(k)) ELSE BadM
MDiag(a) == IF IsM(a) THEN Vec(Min2(a.r, a.c), LAMBDA i : a.v[i][i]) ELSE BadV

\* generators given by a formula, for shapes of any size
LinAt(k, x, i, j) == FromJ(k, (x.p[1] * (i % 1009) + x.p[2] * (j % 1013) + x.p[3]) % x.p[4])

RECURSIVE MX(_), VX(_)
MX(x) ==
  LET k == kind IN
  CASE x.n = "m" -> ms[x.i + 1]
    [] x.n \in {"arr", "gen", "user"} -> MJ(k, x)
    [] x.n = "lin" -> Mat(x.r, x.c, LAMBDA i, j : LinAt(k, x, i - 1, j - 1))
    [] x.n = "eye" -> Mat(x.r, x.r, LAMBDA i, j : IF i = j THEN ROne(k) ELSE RZero(k))
    [] x.n = "zeros" -> Mat(x.r, x.c, LAMBDA i, j : RZero(k))
    [] x.n = "ones" -> Mat(x.r, x.c, LAMBDA i, j : ROne(k))
    [] x.n = "same" -> LET y == FromJ(k, x.x) IN Mat(x.r, x.c, LAMBDA i, j : y)
    [] x.n = "mul" -> MProd(k, ms[x.a + 1], ms[x.b + 1])
    [] x.n = "vdiag" -> VDiag(k, VX(x.a))
    [] x.n \in Binary -> MOp2(MX(x.a), MX(x.b), LAMBDA p, q : Bin(k, x.n, p, q))
    [] x.n = "t" -> MTrans(MX(x.a), LAMBDA p : p)
    [] x.n = "h" -> MTrans(MX(x.a), LAMBDA p : RConj(k, p))
    [] x.n = "wrap" -> MX(x.a)
    [] x.n = "map" -> MOp1(MX(x.a), LAMBDA p : Fun1(k, x, p))
    [] x.n = "zip" -> MOp2(MX(x.a), MX(x.b), LAMBDA p, q : Fun2(k, x, p, q))
VX(x) ==
  LET k == kind IN
  CASE x.n = "v" -> [ok |-> TRUE, v |-> vs[x.i + 1]]
    [] x.n \in {"slice", "gen", "user"} -> [ok |-> TRUE, v |-> VJ(k, x.v)]
    [] x.n = "lin" -> Vec(x.r, LAMBDA i : LinAt(k, x, i - 1, 0))
    [] x.n = "zeros" -> Vec(x.r, LAMBDA i : RZero(k))
    [] x.n = "ones" -> Vec(x.r, LAMBDA i : ROne(k))
    [] x.n = "same" -> LET y == FromJ(k, x.x) IN Vec(x.r, LAMBDA i : y)
    [] x.n = "diag" -> MDiag(MX(x.a))
    [] x.n \in Binary -> VOp2(VX(x.a), VX(x.b), LAMBDA p, q : Bin(k, x.n, p, q))
    [] x.n = "conj" -> VOp1(VX(x.a), LAMBDA p : RConj(k, p))
    [] x.n = "wrap" -> VX(x.a)
    [] x.n = "map" -> VOp1(VX(x.a), LAMBDA p : Fun1(k, x, p))
    [] x.n = "zip" -> VOp2(VX(x.a), VX(x.b), LAMBDA p, q : Fun2(k, x, p, q))

------------------------------------------------------------------------------
(* Shapes beyond 2^31: every size, row and column is a pair <<hi, lo>>,      *)
(* which stands for hi * 2^30 + lo.  Such expressions cannot be stored; they *)
(* are built and read entry by entry (MEnt and VEnt work on pairs as well,   *)
(* over the leaves eye, zeros, ones, same and hlin).                         *)
Split(n) == <<n \div 1073741824, n % 1073741824>>
PLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PMin(a, b) == IF PLess(a, b) THEN a ELSE b
Residue(a, m) == ((a[1] % m) * (1073741824 % m) + (a[2] % m)) % m
PBad == <<-1, -1>>
HBad == <<PBad, PBad>>
RECURSIVE HM(_), HV(_)
HM(x) ==
  CASE x.n \in {"hlin", "zeros", "ones", "same"} -> <<x.r, x.c>>
    [] x.n = "eye" -> <<x.r, x.r>>
    [] x.n = "vdiag" -> LET s == HV(x.a) IN <<s, s>>
    [] x.n \in Binary \cup {"zip"} -> LET s == HM(x.a) IN IF s = HM(x.b) THEN s ELSE HBad
    [] x.n \in {"t", "h"} -> LET s == HM(x.a) IN <<s[2], s[1]>>
    [] x.n \in {"wrap", "map"} -> HM(x.a)
HV(x) ==
  CASE x.n \in {"hlin", "zeros", "ones", "same"} -> x.r
    [] x.n = "diag" -> LET s == HM(x.a) IN PMin(s[1], s[2])
    [] x.n \in Binary \cup {"zip"} -> LET s == HV(x.a) IN IF s = HV(x.b) THEN s ELSE PBad
    [] x.n \in {"conj", "wrap", "map"} -> HV(x.a)
HLinAt(k, x, i, j) == FromJ(k, (x.p[1] * Residue(i, 1009) + x.p[2] * Residue(j, 1013) + x.p[3]) % x.p[4])
Beyond(e) == "big" \in DOMAIN e

------------------------------------------------------------------------------
(* The same, one entry at a time: the shape of an expression and a single   *)
(* entry of it, without the others (so that shapes can be of any size).     *)
RECURSIVE MSh(_), VSh(_), MEnt(_, _, _), VEnt(_, _)
BadSh == <<-1, -1>>
MSh(x) ==
  CASE x.n = "m" -> <<ms[x.i + 1].r, ms[x.i + 1].c>>
    [] x.n \in {"arr", "gen", "user", "lin", "zeros", "ones", "same"} -> <<x.r, x.c>>
    [] x.n = "eye" -> <<x.r, x.r>>
    [] x.n = "mul" -> LET a == ms[x.a + 1]  b == ms[x.b + 1] IN IF a.c = b.r THEN <<a.r, b.c>> ELSE BadSh
    [] x.n = "vdiag" -> LET s == VSh(x.a) IN <<s, s>>
    [] x.n \in Binary \cup {"zip"} -> LET s == MSh(x.a) IN IF s = MSh(x.b) THEN s ELSE BadSh
    [] x.n \in {"t", "h"} -> LET s == MSh(x.a) IN <<s[2], s[1]>>
    [] x.n \in {"wrap", "map"} -> MSh(x.a)
VSh(x) ==
  CASE x.n = "v" -> Len(vs[x.i + 1])
    [] x.n \in {"slice", "gen", "user"} -> Len(x.v)
    [] x.n \in {"lin", "zeros", "ones", "same"} -> x.r
    [] x.n = "diag" -> LET s == MSh(x.a) IN Min2(s[1], s[2])
    [] x.n \in Binary \cup {"zip"} -> LET s == VSh(x.a) IN IF s = VSh(x.b) THEN s ELSE -1
    [] x.n \in {"conj", "wrap", "map"} -> VSh(x.a)
MEnt(x, i, j) ==
  LET k == kind IN
  CASE x.n = "m" -> ms[x.i + 1].v[i][j]
    [] x.n \in {"arr", "gen", "user"} -> FromJ(k, x.v[i][j])
    [] x.n = "lin" -> LinAt(k, x, i - 1, j - 1)
    [] x.n = "hlin" -> HLinAt(k, x, i, j)
    [] x.n = "eye" -> IF i = j THEN ROne(k) ELSE RZero(k)
    [] x.n = "zeros" -> RZero(k)
    [] x.n = "ones" -> ROne(k)
    [] x.n = "same" -> FromJ(k, x.x)
    [] x.n = "mul" -> LET a == ms[x.a + 1]  b == ms[x.b + 1] IN SumOver(k, a.c, LAMBDA t : RMul(k, a.v[i][t], b.v[t][j]))
    [] x.n = "vdiag" -> IF i = j THEN VEnt(x.a, i) ELSE RZero(k)
    [] x.n \in Binary -> Bin(k, x.n, MEnt(x.a, i, j), MEnt(x.b, i, j))
    [] x.n = "t" -> MEnt(x.a, j, i)
    [] x.n = "h" -> RConj(k, MEnt(x.a, j, i))
    [] x.n = "wrap" -> MEnt(x.a, i, j)
    [] x.n = "map" -> Fun1(k, x, MEnt(x.a, i, j))
    [] x.n = "zip" -> Fun2(k, x, MEnt(x.a, i, j), MEnt(x.b, i, j))
VEnt(x, i) ==
  LET k == kind IN
  CASE x.n = "v" -> vs[x.i + 1][i]
    [] x.n \in {"slice", "gen", "user"} -> FromJ(k, x.v[i])
    [] x.n = "lin" -> LinAt(k, x, i - 1, 0)
    [] x.n = "hlin" -> HLinAt(k, x, i, <<0, 0>>)
    [] x.n = "zeros" -> RZero(k)
    [] x.n = "ones" -> ROne(k)
    [] x.n = "same" -> FromJ(k, x.x)
    [] x.n = "diag" -> MEnt(x.a, i, i)
    [] x.n \in Binary -> Bin(k, x.n, VEnt(x.a, i), VEnt(x.b, i))
    [] x.n = "conj" -> RConj(k, VEnt(x.a, i))
    [] x.n = "wrap" -> VEnt(x.a, i)
    [] x.n = "map" -> Fun1(k, x, VEnt(x.a, i))
    [] x.n = "zip" -> Fun2(k, x, VEnt(x.a, i), VEnt(x.b, i))

------------------------------------------------------------------------------
(* The calls of user functions that computing the entries P of x takes.    *)
(* P is a sequence of positions; positions are counted from 1 here and     *)
(* from 0 in the arguments of a generator.  The three kinds of calls are   *)
(* kept apart because their arguments have different types.                *)
NoCalls == [g |-> <<>>, m |-> <<>>, z |-> <<>>]
Cat(a, b) == [g |-> a.g \o b.g, m |-> a.m \o b.m, z |-> a.z \o b.z]
RECURSIVE MCalls(_, _), VCalls(_, _)
MCalls(x, P) ==
  CASE x.n \in {"gen", "lin"} -> [NoCalls EXCEPT !.g = [i \in 1..Len(P) |-> <<x.id, P[i][1] - 1, P[i][2] - 1>>]]
    [] x.n = "vdiag" -> LET D == SelectSeq(P, LAMBDA p : p[1] = p[2])
                        IN VCalls(x.a, [i \in 1..Len(D) |-> D[i][1]])
    [] x.n \in Binary -> Cat(MCalls(x.a, P), MCalls(x.b, P))
    [] x.n \in {"t", "h"} -> MCalls(x.a, [i \in 1..Len(P) |-> <<P[i][2], P[i][1]>>])
    [] x.n = "wrap" -> MCalls(x.a, P)
    [] x.n = "map" /\ Len(P) = 1 -> Cat(MCalls(x.a, P), [NoCalls EXCEPT !.m = << <<x.id, MEnt(x.a, P[1][1], P[1][2])>> >>])
    [] x.n = "zip" /\ Len(P) = 1 ->
         Cat(Cat(MCalls(x.a, P), MCalls(x.b, P)),
             [NoCalls EXCEPT !.z = << <<x.id, MEnt(x.a, P[1][1], P[1][2]), MEnt(x.b, P[1][1], P[1][2])>> >>])
    [] x.n = "map" -> LET a == MX(x.a).v IN
         Cat(MCalls(x.a, P), [NoCalls EXCEPT !.m = [i \in 1..Len(P) |-> <<x.id, a[P[i][1]][P[i][2]]>>]])
    [] x.n = "zip" -> LET a == MX(x.a).v  b == MX(x.b).v IN
         Cat(Cat(MCalls(x.a, P), MCalls(x.b, P)),
             [NoCalls EXCEPT !.z = [i \in 1..Len(P) |-> <<x.id, a[P[i][1]][P[i][2]], b[P[i][1]][P[i][2]]>>]])
    [] OTHER -> NoCalls
VCalls(x, P) ==
  CASE x.n \in {"gen", "lin"} -> [NoCalls EXCEPT !.g = [i \in 1..Len(P) |-> <<x.id, P[i] - 1, 0>>]]
    [] x.n = "diag" -> MCalls(x.a, [i \in 1..Len(P) |-> <<P[i], P[i]>>])
    [] x.n \in Binary -> Cat(VCalls(x.a, P), VCalls(x.b, P))
    [] x.n \in {"wrap", "conj"} -> VCalls(x.a, P)
    [] x.n = "map" /\ Len(P) = 1 -> Cat(VCalls(x.a, P), [NoCalls EXCEPT !.m = << <<x.id, VEnt(x.a, P[1])>> >>])
    [] x.n = "zip" /\ Len(P) = 1 ->
         Cat(Cat(VCalls(x.a, P), VCalls(x.b, P)), [NoCalls EXCEPT !.z = << <<x.id, VEnt(x.a, P[1]), VEnt(x.b, P[1])>> >>])
    [] x.n = "map" -> LET a == VX(x.a).v IN
         Cat(VCalls(x.a, P), [NoCalls EXCEPT !.m = [i \in 1..Len(P) |-> <<x.id, a[P[i]]>>]])
    [] x.n = "zip" -> LET a == VX(x.a).v  b == VX(x.b).v IN
         Cat(Cat(VCalls(x.a, P), VCalls(x.b, P)), [NoCalls EXCEPT !.z = [i \in 1..Len(P) |-> <<x.id, a[P[i]], b[P[i]]>>]])
    [] OTHER -> NoCalls
AllM(a) == [i \in 1..(a.r * a.c) |-> <<((i - 1) \div a.c) + 1, ((i - 1) % a.c) + 1>>]
AllV(n) == Upto(n)
\* equal as bags
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \E S \in {Range(s)} :
       /\ S = Range(t)
       /\ \/ Cardinality(S) = Len(s)
          \/ \A x \in S : Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})

------------------------------------------------------------------------------
(* Steps *)
Ok(y) == [rej |-> FALSE, y |-> y]
Rejected == [rej |-> TRUE, y |-> <<>>]

\* the addressed element; an index with a shift is beyond any shape
Shift(e, t) == IF "sh" \in DOMAIN e THEN e.sh[t] ELSE 0
InM(e, a) == Shift(e, 1) = 0 /\ Shift(e, 2) = 0 /\ e.i[1] < a.r /\ e.i[2] < a.c
InV(e, n) == Shift(e, 1) = 0 /\ e.i[1] < n
Row(e) == e.i[1] + 1
Col(e) == e.i[2] + 1

SetM(d, a) == IF IsM(a) THEN ms' = [ms EXCEPT ![d + 1] = a] /\ out' = Ok(<<>>)
              ELSE ms' = ms /\ out' = Rejected
SetV(d, a) == IF a.ok THEN vs' = [vs EXCEPT ![d + 1] = a.v] /\ out' = Ok(<<>>)
              ELSE vs' = vs /\ out' = Rejected
Assign(f) == IF f = "add" THEN "add" ELSE "sub"
Inner(k, u, v) == SumOver(k, Len(u), LAMBDA i : RMul(k, RConj(k, u[i]), v[i]))
Pairs(a, b) == [i \in 1..Len(a) |-> <<a[i], b[i]>>]

MWrites == {"mload", "mclone", "meval", "masg", "mset"}
VWrites == {"vload", "veval", "vasg", "vset"}
Asks == {"ment", "vent", "mget", "vget", "dot", "meq", "veq", "mzip", "vzip", "dump"}

Answer(e) ==
  CASE e.op = "ment" /\ Beyond(e) -> LET s == HM(e.x) IN
          IF s = HBad \/ ~PLess(e.i[1], s[1]) \/ ~PLess(e.i[2], s[2]) THEN Rejected
          ELSE Ok([sz |-> s, y |-> MEnt(e.x, e.i[1], e.i[2])])
    [] e.op = "vent" /\ Beyond(e) -> LET n == HV(e.x) IN
          IF n = PBad \/ ~PLess(e.i, n) THEN Rejected ELSE Ok([sz |-> <<n>>, y |-> VEnt(e.x, e.i)])
    [] e.op = "ment" -> LET s == MSh(e.x) IN
          IF s[1] < 0 \/ ~InM(e, [r |-> s[1], c |-> s[2]]) THEN Rejected ELSE Ok([sz |-> s, y |-> MEnt(e.x, Row(e), Col(e))])
    [] e.op = "vent" -> LET n == VSh(e.x) IN
          IF n < 0 \/ e.i >= n THEN Rejected ELSE Ok([sz |-> <<n>>, y |-> VEnt(e.x, e.i + 1)])
    [] e.op = "mget" -> LET a == ms[e.a + 1] IN IF InM(e, a) THEN Ok(a.v[Row(e)][Col(e)]) ELSE Rejected
    [] e.op = "vget" -> LET a == vs[e.a + 1] IN IF InV(e, Len(a)) THEN Ok(a[Row(e)]) ELSE Rejected
    [] e.op = "dot" -> LET u == vs[e.a + 1]  v == vs[e.b + 1] IN
          IF Len(u) = Len(v) THEN Ok(Inner(kind, u, v)) ELSE Rejected
    [] e.op = "meq" -> Ok(ms[e.a + 1] = ms[e.b + 1])
    [] e.op = "veq" -> Ok(vs[e.a + 1] = vs[e.b + 1])
    [] e.op = "mzip" -> LET a == MX(e.x)  b == MX(e.z) IN
          IF IsM(a) /\ IsM(b) /\ a.r = b.r /\ a.c = b.c THEN Ok([i \in 1..a.r |-> Pairs(a.v[i], b.v[i])]) ELSE Rejected
    [] e.op = "vzip" -> LET a == VX(e.x)  b == VX(e.z) IN
          IF a.ok /\ b.ok /\ Len(a.v) = Len(b.v) THEN Ok(Pairs(a.v, b.v)) ELSE Rejected
    [] e.op = "dump" -> Ok(<<>>)

MVal(e) ==
  CASE e.op = "mload" -> MJ(kind, e)
    [] e.op = "mclone" -> ms[e.a + 1]
    [] e.op = "meval" -> MX(e.x)
    [] e.op = "masg" /\ Beyond(e) -> IF HM(e.x) # <<Split(ms[e.d + 1].r), Split(ms[e.d + 1].c)>> THEN BadM ELSE Assert(FALSE, "use masg")
    [] e.op = "masg" -> MOp2(ms[e.d + 1], MX(e.x), LAMBDA p, q : Bin(kind, Assign(e.f), p, q))
    [] e.op = "mset" -> LET a == ms[e.d + 1] IN
          IF InM(e, a) THEN [a EXCEPT !.v[Row(e)][Col(e)] = FromJ(kind, e.x)] ELSE BadM
VVal(e) ==
  CASE e.op = "vload" -> [ok |-> TRUE, v |-> VJ(kind, e.v)]
    [] e.op = "veval" -> VX(e.x)
    [] e.op = "vasg" /\ Beyond(e) -> IF HV(e.x) # Split(Len(vs[e.d + 1])) THEN BadV ELSE Assert(FALSE, "use vasg")
    [] e.op = "vasg" -> VOp2([ok |-> TRUE, v |-> vs[e.d + 1]], VX(e.x), LAMBDA p, q : Bin(kind, Assign(e.f), p, q))
    [] e.op = "vset" -> LET a == vs[e.d + 1] IN
          IF InV(e, Len(a)) THEN [ok |-> TRUE, v |-> [a EXCEPT ![Row(e)] = FromJ(kind, e.x)]] ELSE BadV

Open(k, nm, nv) == /\ kind' = k /\ out' = Ok(<<>>)
                   /\ ms' = [i \in 1..nm |-> [r |-> 0, c |-> 0, v |-> <<>>]]
                   /\ vs' = [i \in 1..nv |-> <<>>]
Do(e) ==
  CASE e.op = "session" -> Open(e.kind, e.nm, e.nv)
    [] e.op \in MWrites -> SetM(e.d, MVal(e)) /\ UNCHANGED <<kind, vs>>
    [] e.op \in VWrites -> SetV(e.d, VVal(e)) /\ UNCHANGED <<kind, ms>>
    [] e.op \in Asks -> out' = Answer(e) /\ UNCHANGED <<kind, ms, vs>>

\* the calls a lazily evaluated step makes
StepCalls(e) ==
  CASE e.op \in {"meval", "masg"} -> MCalls(e.x, AllM(MX(e.x)))
    [] e.op \in {"veval", "vasg"} -> VCalls(e.x, AllV(Len(VX(e.x).v)))
    [] e.op = "ment" -> MCalls(e.x, << <<Row(e), Col(e)>> >>)
    [] e.op = "vent" -> VCalls(e.x, <<e.i + 1>>)
=============================================================================
