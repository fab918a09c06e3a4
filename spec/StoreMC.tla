------------------------------ MODULE StoreMC ------------------------------
(* All pairs of small containers over a small alphabet: equality, copies,   *)
(* and one write to each place of a copy.  Emitted and replayed.            *)
EXTENDS Store, TLC, Json
CONSTANTS Sort, T, Alphabet, MaxR, MaxC, Emit
VARIABLES sid, pc

Shapes == IF Sort = "cx" THEN {<<1, 2>>}
          ELSE IF Sort \in {"dv", "sv", "po"} THEN (0..MaxR) \X {1} ELSE (0..MaxR) \X (0..MaxC)
Words(n) == [1..n -> Alphabet]
Values == UNION {{[r |-> s[1], c |-> s[2], x |-> w] : w \in Words(s[1] * s[2])} : s \in Shapes}
\* containers of static size are only compared when they have the same type
Comparable(v, w) == Sort \in {"sm", "sv"} => v.r = w.r /\ v.c = w.c

Load(d, v) == [op |-> "load", d |-> d, r |-> v.r, c |-> v.c, pat |-> IF v.x = <<>> THEN <<0>> ELSE v.x, at |-> <<>>]
Copy(d, a) == [op |-> "copy", d |-> d, a |-> a]
Eq(a, b) == [op |-> "eq", a |-> a, b |-> b]
\* the place to write to, and something unequal to what is there, if anything is
Size(v) == Len(v.x)
Writable == Size(sid[1]) > 0 /\ Sort \in {"dm", "dv", "sv", "cx"}
Place == sid[3] % (IF Size(sid[1]) = 0 THEN 1 ELSE Size(sid[1]))
SetTo(d, y) == [op |-> "set", d |-> d, i |-> Place \div sid[1].c, j |-> Place % sid[1].c, y |-> y]
Script ==
  <<Load(0, sid[1]), Load(1, sid[2]), Eq(0, 1), Copy(2, 0), Eq(0, 2), Eq(2, 1), Copy(3, 1)>>
  \o (IF Writable THEN <<SetTo(2, 7), Eq(0, 2)>> ELSE <<>>)
  \o (IF Comparable(sid[1], sid[2]) THEN <<Copy(1, 0), Eq(1, 0)>> ELSE <<>>)
  \o (IF Writable THEN <<SetTo(0, 7), Eq(1, 0), Eq(2, 0)>> ELSE <<>>)
  \o <<Eq(3, 3), [op |-> "dump"]>>

Init == /\ sid \in {<<v, w, p>> \in Values \X Values \X (0..3) : Comparable(v, w) /\ p < (IF Size(v) = 0 THEN 1 ELSE Size(v))}
        /\ sort = Sort /\ et = T /\ out = <<>> /\ pc = 0
        /\ regs = [i \in 1..4 |-> Canon(Sort, Fill(sid[1].r, sid[1].c, <<0>>, <<>>))]
Step == pc < Len(Script) /\ Do(Script[pc + 1]) /\ pc' = pc + 1 /\ UNCHANGED sid
Spec == Init /\ [][Step]_<<cvars, sid, pc>>
EmitStep == IF Emit /\ pc = 0
            THEN PrintT(<<"EMIT", ToJson(<<[op |-> "session", sort |-> Sort, et |-> T, nr |-> 4, r |-> sid[1].r, c |-> sid[1].c]>> \o Script)>>)
            ELSE TRUE

V == Canon(Sort, sid[1])
W == Canon(Sort, sid[2])
Laws == pc = 0 =>
  /\ EqC(T, V, W) = EqC(T, W, V)
  /\ Reflexive(T, V) = EqC(T, V, V)
  /\ EqC(T, V, W) => V.r = W.r /\ V.c = W.c
  \* polynomials: equal exactly when all coefficients agree
  /\ Sort = "po" => (EqC(T, V, W) <=> \A k \in 1..(MaxR + 1) :
        (IF k <= Size(sid[1]) THEN sid[1].x[k] ELSE 0) = (IF k <= Size(sid[2]) THEN sid[2].x[k] ELSE 0))
\* writing to one variable leaves every other one alone; a write of something
\* else makes a difference
Frame == [][\A i \in 1..4 : (pc' = pc + 1 /\ (Script[pc'].op \notin Writes \/ Script[pc'].d # i - 1)) => regs'[i] = regs[i]]_<<cvars, sid, pc>>
Apart == (Writable /\ pc >= 9 /\ pc <= 11) => (EqC(T, regs[1], regs[3]) <=> EqE(T, regs[1].x[Place + 1], 7) /\ Reflexive(T, regs[1]))
=============================================================================
