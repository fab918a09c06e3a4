---------------------------- MODULE DiffEvoTrace ----------------------------
(* Recorded runs of the optimiser against DiffEvo: every comparison of every *)
(* run is one step.  The environment variable ASPECT names the property that *)
(* is being decided; guards that belong to other properties are not judged.  *)
EXTENDS DiffEvo, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT

VARIABLES l,      \* the event
          c,      \* comparisons of this event consumed
          past    \* the runs so far
tvars == <<dvars, l, c, past>>

Judge(tags, ok, what) ==
  IF Aspect \notin tags THEN TRUE
  ELSE IF ok THEN TRUE
  ELSE TLCSet(8, TLCGet(8) + 1) /\ PrintT(<<"MISMATCH", l, ToString(<<what, "comparison", c>>)>>)
\* a trace that has shown this many mismatches is not followed any further
Enough == TLCGet(8) > 60
All == {"C19", "C20", "C21", "C22"}

E == Trace[l]
Cmps == E.cmp
IsRun == E.op = "run"
Opaque == E.impl # "w"
Parameters(e) == [np |-> e.np, n |-> e.n, cr |-> e.cr, fw |-> e.fw, iters |-> e.iters]
World(e) == [co |-> IF e.impl # "w" THEN <<>> ELSE e.pts, rank |-> e.rank, inb |-> e.inb, mod |-> <<46337, 46327>>]

------------------------------------------------------------------------------
(* The initial population as the caller can know it: the member of each of   *)
(* the first turns; members that never had a turn show up in the comparisons *)
(* that pick the result (their order does not matter).                       *)
MinI(a, b) == IF a < b THEN a ELSE b
Turns == MinI(E.iters, Len(Cmps))
Points0 ==
  LET known == [i \in 1..MinI(Turns, E.np) |-> Cmps[i][2]]
      early == {Cmps[i][1] : i \in 1..Turns} \cup {Cmps[i][2] : i \in 1..Turns}
      taken == {Cmps[i][1] : i \in {j \in 1..Turns : Cmps[j][3]}} \cup Range(known)
      finals == [i \in 1..(Len(Cmps) - Turns) |-> Turns + i]
      add(q, p, not) == IF Len(q) = E.np - Len(known) \/ p \in not \/ p \in Range(q) THEN q ELSE Append(q, p)
      more(s, not) == FoldLeft(LAMBDA q, i : add(add(q, Cmps[i][1], not), Cmps[i][2], not), s, finals)
  IN  \* A trial point can be the same as a member without a turn: if F = 0,
      \* and because (a + F*(b - c)) + F*(c - b) = a.
      [certain |-> known \o more(<<>>, early), all |-> known \o more(more(more(<<>>, early), taken), Range(known))]
(* A trial point that was taken shows up in the comparisons that pick the    *)
(* result in any case.  If some of them must have been members all along and *)
(* some not, then nobody can tell which, and the donors are not judged.      *)
Unclear ==
  LET known == {Cmps[i][2] : i \in 1..Turns}
      taken == {Cmps[i][1] : i \in {j \in 1..Turns : Cmps[j][3]}}
      shown == UNION {{Cmps[i][1], Cmps[i][2]} : i \in (Turns + 1)..Len(Cmps)} \ known
      need == E.np - Cardinality(known) - Cardinality(shown \ taken)
  IN  Turns < E.np /\ 0 < need /\ need < Cardinality(shown \cap taken)
\* With rounded coordinates two members can be the same point: then a point
\* that lost its turn can still be a member.
Twins == IF Opaque /\ Turns < E.np THEN {Cmps[i][2] : i \in 1..Turns} ELSE {}
Member2(x) == x \in Range(pop) \/ x \in Twins
\* members that were never compared are taken to be like the first
Filled(points) == points \o [i \in 1..(E.np - Len(points)) |-> points[1]]

------------------------------------------------------------------------------
Advance == l' = l + 1 /\ c' = -1
Stay == UNCHANGED past
Skip == UNCHANGED dvars /\ Stay /\ Advance

Key(e) == <<e.impl, Parameters(e), e.bounds, e.rng, e.seed, e.fit, IF "script" \in DOMAIN e THEN e.script ELSE <<>>>>
Behaviour(e) == <<e.pts, e.cmp, e.res, e.ended>>

\* the first step of a run, or all there is of a run that was not accepted
Begin ==
  IF E.op = "session" THEN Skip
  ELSE IF E.out # "ok" THEN Judge(All, FALSE, "the run crashed or did not end") /\ Skip
  ELSE LET legal == Legal(Parameters(E)) IN
    /\ Judge({"C21"}, legal => E.ended = "returned", "legal parameters were rejected")
    /\ Judge({"C20"}, legal => E.ended = "returned", "no result")
    /\ Judge({"C21"}, ~legal => E.ended = "panic", "illegal parameters were accepted")
    /\ Judge({"C21"}, ~legal => Len(Cmps) = 0, "compared before the parameters were checked")
    /\ Judge({"C22"}, \A q \in past : Key(Trace[q]) = Key(E) => Behaviour(Trace[q]) = Behaviour(E), "not reproducible")
    /\ past' = past \cup {l}
    /\ IF ~legal \/ E.ended = "panic"
       THEN Reject(Parameters(E)) /\ Advance
       ELSE /\ Judge({"C21"}, Len(Cmps) >= E.iters, "too few comparisons")
            /\ \E p0 \in {Points0} : \E initial \in {Filled(p0.all)} :
               LET points == p0.all
               IN IF points = <<>>
                  THEN Judge({"C20"}, FALSE, "nothing was compared") /\ UNCHANGED dvars /\ Advance
                  ELSE /\ Start(Parameters(E), World(E), initial)
                       /\ Judge({"C20"}, Opaque \/ Len(points) = E.np, "a member was never compared")
                       /\ l' = l /\ c' = 0
                       /\ Judge({"C21"}, \A i \in DOMAIN p0.certain : E.inb[p0.certain[i]], "initial member out of bounds")

TrialStep ==
  LET x == Cmps[c + 1][1]
      y == Cmps[c + 1][2]
      \* the harness proposes the donors; here they are checked
      hint == IF E.hint = <<>> THEN <<>> ELSE E.hint[c + 1]
      fits == IF hint # <<>> /\ IsDonors(hint) /\ ValidTrial(x, hint) THEN {hint} ELSE {}
      valid == fits # {} \/ (NP <= 12 /\ TrialOK(x))
  IN  /\ Judge({"C19", "C20"}, TurnOK(y), "not compared with the member whose turn it is")
      /\ Judge({"C19"}, Opaque \/ valid \/ Unclear, "not a recombination of members")
      /\ Select(x, Cmps[c + 1][3])
      /\ c' = c + 1 /\ l' = l /\ UNCHANGED past

FinalStep ==
  /\ Judge({"C20", "C21"}, MembersOK(Cmps[c + 1][1], Cmps[c + 1][2]) \/ (Member2(Cmps[c + 1][1]) /\ Member2(Cmps[c + 1][2])), "compared points that are not members")
  /\ Compare /\ c' = c + 1 /\ l' = l /\ Stay

Place == <<l, c>>     \* a trace is one behaviour: its place identifies the state

------------------------------------------------------------------------------
(* A long run.  Its fitness is constant, so the population stays the initial *)
(* one.  E.long says how long the run is: 0 enough for the rate only, 1 enough for single donors of a    *)
(* member and for pairs of donors of some member, 2 for pairs, 3 for triples *)
(* of donors of each member.                                                 *)
TurnOf(i) == ((i - 1) % NP) + 1
Fair == {i \in 1..par.iters : /\ E.hint[i] # <<>> /\ IsDonorsOf(TurnOf(i), E.hint[i])
                              /\ ValidTrialOf(TurnOf(i), Cmps[i][1], E.hint[i])}
Mask(i) == {n \in Coords : Rec(Cmps[i][1], E.hint[i], n)}
Masks == IF IsZero(par.cr) THEN {{n} : n \in Coords}
         ELSE IF IsOne(par.cr) THEN {Coords} ELSE (SUBSET Coords) \ {{}}
\* F is the set of trials
DonorUsed(T) == LET used == {<<x[1], r, x[2][r]>> : x \in T, r \in 1..3} IN
  \A m \in 1..NP : \A o \in OthersOf(m) : \A r \in 1..3 : <<m, r, o>> \in used
RolePairs == {<<1, 2>>, <<1, 3>>, <<2, 3>>}
PairUsed(T) == LET used == {<<q, x[2][q[1]], x[2][q[2]]>> : x \in T, q \in RolePairs} IN
  \A a \in 1..NP : \A b \in OthersOf(a) : \A q \in RolePairs : <<q, a, b>> \in used
MemberPairUsed(T) == LET used == {<<x[1], q, x[2][q[1]], x[2][q[2]]>> : x \in T, q \in RolePairs} IN
  \A m \in 1..NP : \A a \in OthersOf(m) : \A b \in OthersOf(m) \ {a} : \A q \in RolePairs : <<m, q, a, b>> \in used
TripleUsed(T) == \A m \in 1..NP : \A d \in DonorsOf(m) : <<m, d>> \in T
MaskUsed(F) == LET used == {<<TurnOf(i), Mask(i)>> : i \in F} IN
  \A m \in 1..NP : \A s \in Masks : <<m, s>> \in used
\* the donors do not depend on the recombined coordinates
MaskDonorUsed(F) == LET used == {<<TurnOf(i), Mask(i), r, E.hint[i][r]>> : i \in F, r \in 1..3} IN
  \A m \in 1..NP : \A s \in Masks : \A r \in 1..3 : \A o \in OthersOf(m) : <<m, s, r, o>> \in used
\* the number of recombined coordinates is within 8 standard deviations
Rate(F) ==
  LET total == FoldLeft(LAMBDA s, i : IF i \in F THEN s + Cardinality(Mask(i)) ELSE s, 0, [i \in 1..par.iters |-> i])
      p == par.cr.v[1]
      q == par.cr.v[2]
      \* every donor is judged on all trials, the rate on as many as fit
      dev == AbsV(total * q - Cardinality(F) * (q + (par.n - 1) * p))
  IN  dev <= 300000 /\ (dev \div 8) * (dev \div 8) <= Cardinality(F) * (par.n - 1) * p * (q - p)
LongOK ==
  \E F \in {Fair} : \E T \in {{<<TurnOf(i), E.hint[i]>> : i \in F}} :
    /\ Judge({"C22"}, E.long >= 1 => DonorUsed(T), "a donor was never used")
    /\ Judge({"C22"}, E.long >= 1 => PairUsed(T), "two donors were never used together")
    /\ Judge({"C22"}, E.long >= 2 => MemberPairUsed(T), "two donors were never used together for a member")
    /\ Judge({"C22"}, E.long >= 3 => TripleUsed(T), "three donors were never used together")
    /\ Judge({"C22"}, E.long >= 1 => MaskUsed(F), "a set of coordinates was never recombined")
    /\ Judge({"C22"}, E.long >= 3 => MaskDonorUsed(F), "a donor was never used for a set of coordinates")
    /\ Judge({"C22"}, par.cr.k = "num" => Rate(F), "the crossover rate is off")

(* The members of a large initial population are spread over the whole box:  *)
(* E.bins gives the eighth of the range that each coordinate lies in.        *)
SpreadOK ==
  LET P == DOMAIN E.bins IN
  /\ \A n \in Coords : {E.bins[p][n] : p \in P} = 0..7
  /\ \A n, o \in Coords : n < o => {<<E.bins[p][n] \div 2, E.bins[p][o] \div 2>> : p \in P} = (0..3) \X (0..3)

End ==
  LET r == E.res
      order == E.fit # "answers"
  IN  /\ Judge({"C20"}, Member2(r) /\ (order => E.rank[r] <= best), "a better point was known, or not a member")
      /\ ("long" \in DOMAIN E /\ Aspect = "C22") => LongOK
      /\ Judge({"C22"}, "spread" \in DOMAIN E => SpreadOK, "a part of the bounds was never used")
      /\ Return /\ Stay /\ Advance

TInit == /\ par = <<>> /\ world = <<>> /\ pop = <<>> /\ best = 0 /\ t = 0 /\ phase = "idle"
         /\ l = 1 /\ c = -1 /\ past = {}
         /\ TLCSet(8, 0)
TNext == /\ l <= Len(Trace) /\ ~Enough
         /\ IF c = -1 THEN Begin
            ELSE IF c < Len(Cmps) THEN (IF t < par.iters THEN TrialStep ELSE FinalStep)
            ELSE End
TSpec == TInit /\ [][TNext]_tvars

\* the whole trace was consumed: every behaviour ends after the last event
TraceAccepted == Enough \/ (TLCGet("stats").diameter - 1 >= Len(Trace) /\ TLCGet(7) = Len(Trace) + 1)
Consumed == TLCSet(7, l)
=============================================================================
