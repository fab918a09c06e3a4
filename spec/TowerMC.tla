------------------------------- MODULE TowerMC ------------------------------
(* The ring axioms on small towers over a two-element or three-element      *)
(* field: every pair of elements (up to Cap of a ring), with a third from   *)
(* a set of probes that generates the ring.  The pairs are emitted, to be   *)
(* run on the implementation.                                               *)
EXTENDS Tower, Json
CONSTANTS T,     \* the tower, one letter per floor: "p", "c", "m"
          B,     \* the finite field at the bottom
          Cap,   \* about this many elements of a larger ring are used
          Emit

K == [n \in 1..Len(T) |-> CASE SubSeq(T, n, n) = "p" -> "poly"
                             [] SubSeq(T, n, n) = "c" -> "cplx"
                             [] OTHER -> "mat2"] \o <<B>>
q == Primes[K[Len(K)]]

\* every Stride-th element of a set, so that about n remain
Thin(S, n) == LET all == SetToSeq(S)
                  stride == 1 + (Len(all) \div n)
              IN  {all[1 + ((t - 1) * stride)] : t \in 1..(1 + ((Len(all) - 1) \div stride))}

\* a sample of the elements of degree at most 1 in every polynomial floor
RECURSIVE Elems(_)
Elems(k) ==
  IF Len(k) = 1 THEN 0..(q - 1)
  ELSE LET s == Elems(Tail(k))
           z == RZero(Tail(k))
       IN  CASE k[1] = "cplx" -> Thin({<<a, b>> : a, b \in s}, Cap)
             [] k[1] = "poly" -> Thin({PolyNorm(z, <<a, b>>) : a, b \in s}, Cap)
             [] OTHER -> LET r == Thin({<<a, b>> : a, b \in s}, Cap) IN Thin({<<a, b>> : a, b \in r}, Cap)

Sample == SetToSeq(Elems(K))
Probes == {ROne(K), Sample[Len(Sample)], Sample[1 + (Len(Sample) \div 2)], Sample[1 + (Len(Sample) \div 3)]}

VARIABLES i, j
Init == /\ i \in 1..Len(Sample) /\ j \in 1..Len(Sample)
        /\ kind = K /\ regs = <<Sample[i], Sample[j]>> /\ out = <<>>
Next == FALSE /\ UNCHANGED <<svars, i, j>>
Spec == Init /\ [][Next]_<<svars, i, j>>

P == regs[1]
Q == regs[2]
Laws ==
  /\ RAdd(K, P, Q) = RAdd(K, Q, P)
  /\ RSub(K, P, P) = RZero(K)
  /\ RAdd(K, RSub(K, P, Q), Q) = P
  /\ RNeg(K, RNeg(K, P)) = P
  /\ RMul(K, ROne(K), P) = P /\ RMul(K, P, ROne(K)) = P
  /\ RMul(K, RZero(K), P) = RZero(K) /\ RMul(K, P, RZero(K)) = RZero(K)
  /\ RAdd(K, P, RZero(K)) = P
  /\ Commutative(K) => RMul(K, P, Q) = RMul(K, Q, P)
  /\ \A r \in Probes :
       /\ RMul(K, RAdd(K, P, Q), r) = RAdd(K, RMul(K, P, r), RMul(K, Q, r))
       /\ RMul(K, r, RAdd(K, P, Q)) = RAdd(K, RMul(K, r, P), RMul(K, r, Q))
       /\ RMul(K, RMul(K, P, Q), r) = RMul(K, P, RMul(K, Q, r))
       /\ RMul(K, RMul(K, P, r), Q) = RMul(K, P, RMul(K, r, Q))
       /\ RAdd(K, RAdd(K, P, Q), r) = RAdd(K, P, RAdd(K, Q, r))

EmitPair == Emit => PrintT(<<"EMIT", ToJson([load |-> regs])>>)
=============================================================================
