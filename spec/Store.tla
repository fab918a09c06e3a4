------------------------------- MODULE Store -------------------------------
(* Containers as values: equality, and copies that lead lives of their own. *)
(*                                                                          *)
(* A container is a shape and the entries in row order.  Entries are codes; *)
(* what it means for two codes to be equal depends on the type of entry:    *)
(* floating point numbers (a NaN equals nothing, both zeros are equal),     *)
(* numbers modulo 5, pairs of floating point numbers, anything else.        *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES sort,   \* "dm" "dv" "sm" "sv": matrix or vector, dynamic or static; "cx"; "po"
          et,     \* the type of the entries
          regs,   \* the variables
          out
cvars == <<sort, et, regs, out>>

NaN == 1000
NegZero == 1001

FloatEq(a, b) == a # NaN /\ b # NaN /\ (a = b \/ {a, b} = {0, NegZero})
EqE(t, a, b) ==
  CASE t = "float" -> FloatEq(a, b)
    [] t = "mod" -> a % 5 = b % 5
    [] t = "cf" -> FloatEq(a \div 10000, b \div 10000) /\ FloatEq(a % 10000, b % 10000)
    [] OTHER -> a = b
EqC(t, v, w) == v.r = w.r /\ v.c = w.c /\ \A k \in 1..Len(v.x) : EqE(t, v.x[k], w.x[k])
\* the type of the entries has an equality that is an equivalence relation
Reflexive(t, v) == \A k \in 1..Len(v.x) : EqE(t, v.x[k], v.x[k])

\* the entries repeat pat, but for the places named in at
Fill(r, c, pat, at) ==
  [r |-> r, c |-> c,
   x |-> FoldLeft(LAMBDA s, p : [s EXCEPT ![p[1] + 1] = p[2]],
                  [k \in 1..(r * c) |-> pat[((k - 1) % Len(pat)) + 1]], at)]
\* polynomials are the same with or without zeros of highest order
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Canon(s, v) == IF s = "po" THEN LET x == Strip(v.x) IN [r |-> Len(x), c |-> 1, x |-> x] ELSE v

Plus(v, w) ==
  IF sort = "po"
  THEN LET n == IF v.r > w.r THEN v.r ELSE w.r
           At(u, k) == IF k <= Len(u.x) THEN u.x[k] ELSE 0
       IN Canon("po", [r |-> n, c |-> 1, x |-> [k \in 1..n |-> At(v, k) + At(w, k)]])
  ELSE [v EXCEPT !.x = [k \in 1..Len(v.x) |-> v.x[k] + w.x[k]]]

Reg(i) == regs[i + 1]
Write(d, v) == regs' = [regs EXCEPT ![d + 1] = v] /\ out' = <<>> /\ UNCHANGED <<sort, et>>
Ask(y) == out' = y /\ UNCHANGED <<sort, et, regs>>

Writes == {"load", "copy", "set", "add"}
\* a copy is the same value; writing to a variable changes this variable only
Do(e) ==
  CASE e.op = "session" ->
         /\ sort' = e.sort /\ et' = e.et /\ out' = <<>>
         /\ regs' = [i \in 1..e.nr |-> Canon(e.sort, Fill(e.r, e.c, <<0>>, <<>>))]
    [] e.op = "load" -> Write(e.d, Canon(sort, Fill(e.r, e.c, e.pat, e.at)))
    [] e.op = "copy" -> Write(e.d, Reg(e.a))
    [] e.op = "set" -> Write(e.d, [Reg(e.d) EXCEPT !.x[e.i * Reg(e.d).c + e.j + 1] = e.y])
    [] e.op = "add" -> Write(e.d, Plus(Reg(e.d), Reg(e.a)))
    [] e.op = "eq" -> Ask(EqC(et, Reg(e.a), Reg(e.b)))
    [] e.op = "dump" -> Ask(regs)
=============================================================================
