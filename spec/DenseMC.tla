------------------------------ MODULE DenseMC ------------------------------
(* All expressions with up to Depth operations over a fixed set of leaves   *)
(* of various shapes (fitting and not fitting).  The entries of the leaves  *)
(* are distinct generators of the free ring, so that what holds here holds  *)
(* over every ring.  The trees are emitted and replayed on the real code.   *)
EXTENDS Dense, Json
CONSTANTS Depth, Emit, Start,
          Few             \* how many leaves the second operation may combine with
VARIABLES tr, sort, depth

k0 == <<"free">>
Gn(i) == << <<1, <<i>> >> >>                    \* as in JSON
MLit(r, c, b) == [i \in 1..r |-> [j \in 1..c |-> Gn(b + c * (i - 1) + j)]]
VLit(n, b) == [i \in 1..n |-> Gn(b + i)]
Stored(r, c, b) == MJ(k0, [r |-> r, c |-> c, v |-> MLit(r, c, b)])
ms0 == <<Stored(2, 3, 10), Stored(3, 2, 20), Stored(2, 2, 30), Stored(0, 2, 0)>>
vs0 == <<VJ(k0, VLit(2, 40)), VJ(k0, VLit(3, 50)), <<>> >>

MLeaves == <<
  [n |-> "m", i |-> 0], [n |-> "m", i |-> 1], [n |-> "m", i |-> 2], [n |-> "m", i |-> 3],
  [n |-> "gen", r |-> 2, c |-> 3, v |-> MLit(2, 3, 60), id |-> 1],
  [n |-> "arr", r |-> 3, c |-> 2, v |-> MLit(3, 2, 70)],
  [n |-> "eye", r |-> 2], [n |-> "ones", r |-> 2, c |-> 3],
  [n |-> "mul", a |-> 0, b |-> 1], [n |-> "mul", a |-> 1, b |-> 1] >>
VLeaves == <<
  [n |-> "v", i |-> 0], [n |-> "v", i |-> 1], [n |-> "v", i |-> 2],
  [n |-> "gen", v |-> VLit(2, 80), id |-> 2], [n |-> "slice", v |-> VLit(3, 90)],
  [n |-> "zeros", r |-> 2], [n |-> "same", r |-> 0, x |-> Gn(5)] >>

Single(w) == Cardinality(DOMAIN w) = 1 /\ \A u \in DOMAIN w : w[u] = 1 /\ Len(u) = 1 /\ u[1] > 0 /\ u[1] < 1000
GensM(y) == LET a == MX(y) IN \A i \in DOMAIN a.v : \A j \in DOMAIN a.v[i] : Single(a.v[i][j])
GensV(y) == LET a == VX(y) IN \A i \in DOMAIN a.v : Single(a.v[i])
Unary(s) == IF s = "M" THEN {"t", "h", "wrap", "map", "diag"} ELSE {"conj", "wrap", "map", "vdiag"}
Un(n, y) == IF n = "map" THEN [n |-> n, a |-> y, id |-> 10 + depth, fn |-> "lmul", x |-> Gn(7)] ELSE [n |-> n, a |-> y]
SortOf(s, n) == CASE n = "diag" -> "V" [] n = "vdiag" -> "M" [] OTHER -> s
Leaves(s) == IF s = "M" THEN MLeaves ELSE VLeaves
BinOps == {"add", "sub", "mule", "dive", "zip"}
Bi(n, y, z) == IF n = "zip" THEN [n |-> n, a |-> y, b |-> z, id |-> 10 + depth, fn |-> "rsub"] ELSE [n |-> n, a |-> y, b |-> z]
CanDiv(s, y, z) == IF s = "M" THEN GensM(y) /\ GensM(z) ELSE GensV(y) /\ GensV(z)

Init == /\ kind = k0 /\ ms = ms0 /\ vs = vs0 /\ out = Ok(<<>>) /\ depth = 0
        /\ \/ Start = "M" /\ sort = "M" /\ \E i \in DOMAIN MLeaves : tr = MLeaves[i]
           \/ Start = "V" /\ sort = "V" /\ \E i \in DOMAIN VLeaves : tr = VLeaves[i]
Next == /\ depth < Depth /\ depth' = depth + 1 /\ UNCHANGED dvars
        /\ \/ \E n \in Unary(sort) : tr' = Un(n, tr) /\ sort' = SortOf(sort, n)
           \/ \E n \in BinOps : \E i \in 1..(IF depth = 0 \/ Few > Len(Leaves(sort)) THEN Len(Leaves(sort)) ELSE Few) : \E flip \in {FALSE, TRUE} :
                LET z == Leaves(sort)[i] IN
                /\ n = "dive" => CanDiv(sort, tr, z)
                /\ tr' = IF flip THEN Bi(n, z, tr) ELSE Bi(n, tr, z)
                /\ sort' = sort
Spec == Init /\ [][Next]_<<dvars, tr, sort, depth>>
EmitState == IF Emit /\ depth > 0 THEN PrintT(<<"EMIT", ToJson([sort |-> sort, x |-> tr])>>) ELSE TRUE

T(y) == Un("t", y)
H(y) == Un("h", y)
\* laws of the specification itself
LawsM == sort = "M" => LET a == MX(tr) IN
  /\ MSh(tr) = <<a.r, a.c>> /\ (IsM(a) => \A i \in 1..a.r : \A j \in 1..a.c : MEnt(tr, i, j) = a.v[i][j])
  /\ MX(T(T(tr))) = a /\ MX(H(H(tr))) = a /\ MX(Un("wrap", tr)) = a
  /\ VX(Un("diag", T(tr))) = VX(Un("diag", tr))
  /\ IsM(a) => /\ VX(Un("diag", Un("vdiag", Un("diag", tr)))) = VX(Un("diag", tr))
               /\ MProd(kind, Mat(a.r, a.r, LAMBDA i, j : IF i = j THEN ROne(kind) ELSE RZero(kind)), a) = a
               /\ MX(Bi("sub", Bi("add", tr, tr), tr)) = a
               \* entry by entry, the same calls as all at once
               /\ LET P == AllM(a)
                      one == FoldLeft(LAMBDA acc, p : Cat(acc, MCalls(tr, <<p>>)), NoCalls, P)
                      all == MCalls(tr, P)
                  IN SameBag(one.g, all.g) /\ Len(one.m) = Len(all.m) /\ Len(one.z) = Len(all.z)
  /\ \A i \in DOMAIN MLeaves : LET z == MLeaves[i] IN
       MX(T(Bi("add", tr, z))) = MX(Bi("add", T(tr), T(z))) /\ MX(H(Bi("sub", tr, z))) = MX(Bi("sub", H(tr), H(z)))
LawsV == sort = "V" => LET a == VX(tr) IN
  /\ VSh(tr) = (IF a.ok THEN Len(a.v) ELSE -1) /\ (a.ok => \A i \in DOMAIN a.v : VEnt(tr, i) = a.v[i])
  /\ VX(Un("conj", Un("conj", tr))) = a
  /\ VX(Un("diag", Un("vdiag", tr))) = a
  /\ MX(T(Un("vdiag", tr))) = MX(Un("vdiag", tr)) /\ MX(H(Un("vdiag", tr))) = MX(Un("vdiag", Un("conj", tr)))
  /\ a.ok => /\ VX(Bi("sub", Bi("add", tr, tr), tr)) = a
             \* conjugate symmetric, up to the order of the factors
             /\ RConj(kind, Inner(kind, a.v, a.v)) = Inner(kind, a.v, a.v)
=============================================================================
