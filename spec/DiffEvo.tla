------------------------------- MODULE DiffEvo ------------------------------
(***************************************************************************)
(* The differential evolution optimiser as its caller sees it.             *)
(*                                                                         *)
(* A run starts with a population of points within the bounds; each trial  *)
(* step compares one new point with the member whose turn it is; then      *)
(* members are compared with each other until one is returned.             *)
(*                                                                         *)
(* Points are opaque names; world.co gives their coordinates and           *)
(* world.rank their fitness (lower is better).  Nothing is said about how  *)
(* random numbers are drawn.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES par,    \* the parameters of the run
          world,  \* the points of this run
          pop,    \* the population: a sequence of points
          best,   \* the rank of the best point that had to be considered
          t,      \* trial steps done
          phase   \* "idle", "run", "rejected", "done"
dvars == <<par, world, pop, best, t, phase>>

AbsV(a) == IF a < 0 THEN -a ELSE a
NP == par.np
Coords == 1..par.n
Member == (t % NP) + 1                \* whose turn it is
Better(p, q) == world.rank[p] < world.rank[q]

------------------------------------------------------------------------------
(* Parameters: a number is [k |-> "num", v |-> <<n, d>>] with d > 0, or one  *)
(* of the special values.                                                    *)
Within(x, hi) ==     \* 0 <= x <= hi
  CASE x.k = "num" -> 0 <= x.v[1] /\ x.v[1] <= hi * x.v[2]
    [] OTHER -> x.k \in {"-zero", "tiny"}
Legal(p) == p.np >= 4 /\ Within(p.cr, 1) /\ Within(p.fw, 2)
IsZero(x) == x.k = "-zero" \/ (x.k = "num" /\ x.v[1] = 0)
IsOne(x) == x.k = "num" /\ x.v[1] = x.v[2]

------------------------------------------------------------------------------
(* Recombination.  A coordinate is a sequence of residues with respect to    *)
(* world.mod (one per modulus), so that a + F*(b - c) is decided exactly.    *)
Res(i, x) == x % world.mod[i]
CoordRec(x, a, b, c) ==     \* x = a + F*(b - c)
  \A i \in DOMAIN world.mod :
    Res(i, Res(i, x[i] - a[i]) * par.fw.v[2]) = Res(i, Res(i, b[i] - c[i]) * par.fw.v[1])

\* Here m is the member whose turn it is.
OthersOf(m) == (1..NP) \ {m}
DonorsOf(m) == {d \in OthersOf(m) \X OthersOf(m) \X OthersOf(m) : d[1] # d[2] /\ d[1] # d[3] /\ d[2] # d[3]}
IsDonorsOf(m, d) == /\ \A r \in 1..3 : d[r] \in OthersOf(m)
                    /\ d[1] # d[2] /\ d[1] # d[3] /\ d[2] # d[3]
Co(p) == world.co[p]
Rec(x, d, n) == CoordRec(Co(x)[n], Co(pop[d[1]])[n], Co(pop[d[2]])[n], Co(pop[d[3]])[n])
KeptOf(m, x, n) == Co(x)[n] = Co(pop[m])[n]

\* every coordinate is kept or recombined, with the same donors throughout
RecombinesOf(m, x, d) == \A n \in Coords : KeptOf(m, x, n) \/ Rec(x, d, n)
\* how many coordinates are recombined
CrossoverOf(m, x, d) ==
  /\ \E n \in Coords : Rec(x, d, n)
  /\ IsZero(par.cr) => \E n \in Coords : Rec(x, d, n) /\ \A o \in Coords \ {n} : KeptOf(m, x, o)
  /\ IsOne(par.cr) => \A n \in Coords : Rec(x, d, n)
ValidTrialOf(m, x, d) == RecombinesOf(m, x, d) /\ CrossoverOf(m, x, d)

\* ... for the member whose turn it is now
Donors == DonorsOf(Member)
IsDonors(d) == IsDonorsOf(Member, d)
Recombines(x, d) == RecombinesOf(Member, x, d)
ValidTrial(x, d) == ValidTrialOf(Member, x, d)
TrialOK(x) == \E d \in Donors : ValidTrial(x, d)

------------------------------------------------------------------------------
(* Steps.  The predicates that make up their guards are named, because a     *)
(* trace that violates one of them is a counterexample to one property.      *)
BoundsOK(p) == world.inb[p]
TurnOK(y) == y = pop[Member]
MembersOK(x, y) == x \in Range(pop) /\ y \in Range(pop)
ResultOK(r) == r \in Range(pop) /\ world.rank[r] <= best

Start(p, w, initial) ==
  /\ par' = p /\ world' = w
  /\ pop' = initial
  /\ best' = FoldLeft(LAMBDA m, x : IF w.rank[x] < m THEN w.rank[x] ELSE m, w.rank[initial[1]], initial)
  /\ t' = 0
  /\ phase' = "run"
Reject(p) ==
  /\ par' = p /\ phase' = "rejected"
  /\ UNCHANGED <<world, pop, best, t>>
Select(x, ans) ==
  /\ pop' = IF ans THEN [pop EXCEPT ![Member] = x] ELSE pop
  /\ best' = IF world.rank[x] < best THEN world.rank[x] ELSE best
  /\ t' = t + 1
  /\ UNCHANGED <<par, world, phase>>
Compare == UNCHANGED dvars
Return == phase' = "done" /\ UNCHANGED <<par, world, pop, best, t>>

\* the protocol: what the caller may observe
Trial(x, y, ans) == /\ phase = "run" /\ t < par.iters
                    /\ TurnOK(y) /\ TrialOK(x) = TRUE    \* a value, not a choice
                    /\ Select(x, ans)
Final(x, y) == phase = "run" /\ t = par.iters /\ MembersOK(x, y) /\ Compare
Finish(r) == phase = "run" /\ t = par.iters /\ ResultOK(r) /\ Return
=============================================================================
