----------------------------- MODULE DiffEvoMC ------------------------------
(***************************************************************************)
(* All runs of a small optimiser: coordinates modulo a small prime, every  *)
(* initial population, every ranking of the points, every choice of donors *)
(* and coordinates; the result is found by a knockout among the members in *)
(* any order.  Checked: the best point ever seen is never lost, the        *)
(* knockout always ends in a point the specification lets be returned, and *)
(* it takes one comparison less than there are members.                    *)
(***************************************************************************)
EXTENDS DiffEvo, Json
CONSTANTS Np, N, Q, Ranks, Iters, FwN, FwD, CrN, CrD, Emit

Points == [1..N -> {<<v>> : v \in 0..(Q - 1)}]
VARIABLES alive,  \* indices still in the knockout
          made,   \* comparisons made in the knockout
          seen,   \* every point considered
          hist    \* -1/0/1: how the trial compared, step by step (when emitting)
vars == <<dvars, alive, made, hist, seen>>

Par == [np |-> Np, n |-> N, iters |-> Iters, fw |-> [k |-> "num", v |-> <<FwN, FwD>>], cr |-> [k |-> "num", v |-> <<CrN, CrD>>]]
\* members of the initial population in any order are equivalent to a sorted
\* one up to renaming of the turn, so every population is tried
Init == /\ par = Par
        /\ \E rank \in [Points -> 0..(Ranks - 1)] :
             world = [co |-> [p \in Points |-> p], rank |-> rank, mod |-> <<Q>>, inb |-> [p \in Points |-> TRUE]]
        /\ pop \in [1..Np -> Points]
        /\ seen = {pop[i] : i \in 1..Np}
        /\ best = CHOOSE r \in {world.rank[pop[i]] : i \in 1..Np} : \A i \in 1..Np : r <= world.rank[pop[i]]
        /\ t = 0 /\ phase = "run"
        /\ alive = 1..Np /\ made = 0 /\ hist = <<>>

Cmp(x, y) == IF Better(x, y) THEN -1 ELSE IF Better(y, x) THEN 1 ELSE 0
Step == /\ t < Iters
        /\ \E x \in Points : /\ TrialOK(x) = TRUE
                             /\ Trial(x, pop[Member], Better(x, pop[Member]))
                             /\ seen' = seen \cup {x}
                             /\ hist' = IF Emit THEN Append(hist, Cmp(x, pop[Member])) ELSE hist
        /\ UNCHANGED <<alive, made>>
Knock == /\ t = Iters /\ Cardinality(alive) > 1
         /\ \E i, j \in alive : /\ i # j
                                /\ Final(pop[i], pop[j])
                                /\ alive' = alive \ {IF Better(pop[i], pop[j]) THEN j ELSE i}
         /\ made' = made + 1
         /\ UNCHANGED <<hist, seen>>
Done == /\ t = Iters /\ Cardinality(alive) = 1
        /\ \E i \in alive : Finish(pop[i])
        /\ UNCHANGED <<alive, made, hist, seen>>
Next == Step \/ Knock \/ Done
Spec == Init /\ [][Next]_vars

\* nothing seen is better than the best member: the run never loses its best
Elitist == \A s \in seen : \E i \in 1..NP : ~Better(s, pop[i])
\* members only ever improve
Improve == [][\A i \in 1..NP : ~Better(pop[i], pop'[i])]_vars
\* the members are points of this run
Closed == Range(pop) \subseteq seen /\ Len(pop) = NP
\* the best rank is that of the best point
BestOK == (\E s \in seen : world.rank[s] = best) /\ \A s \in seen : best <= world.rank[s]
\* the knockout keeps a best member, and its last one may be returned
KnockoutOK == /\ t = Iters => \A i \in 1..NP : \E j \in alive : ~Better(pop[i], pop[j])
              /\ (t = Iters /\ Cardinality(alive) = 1) => \A i \in alive : ResultOK(pop[i])
              /\ made = NP - Cardinality(alive)
\* a run that is not over can go on
Progress == phase = "run" => ENABLED Next
EmitHist == (Emit /\ t = Iters /\ alive = 1..Np) => PrintT(<<"EMIT", ToJson([hist |-> hist])>>)
=============================================================================
