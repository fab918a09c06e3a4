---------------------------- MODULE RingSession ----------------------------
(***************************************************************************)
(* A program over a ring: NR variables that hold ring elements, changed by *)
(* the operations every ring type of the library offers, in every operator *)
(* form.  The forms (field f of an operation) are                          *)
(*    "vv" by value           "vr" left by value, right by reference       *)
(*    "rr" by reference       "mr" the by-reference product of MulRefs     *)
(*    "av" compound assignment by value   "ar" ... by reference            *)
(* and the point of the specification is that the form is irrelevant: it   *)
(* only says which variable is the left operand.                           *)
(***************************************************************************)
EXTENDS Ring

VARIABLES kind,   \* the ring of this session
          regs,   \* the variables of the program
          out     \* the answer of the last query
svars == <<kind, regs, out>>

Reg(i) == regs[i + 1]
AssignForms == {"av", "ar"}
Left(e) == IF e.f \in AssignForms THEN Reg(e.d) ELSE Reg(e.a)

RingWrites == {"load", "zero", "one", "clone", "neg", "add", "sub", "mul"}
RingQueries == {"eq", "iszero"}

RingVal(e) ==
  CASE e.op = "load"  -> FromJ(kind, e.v)
    [] e.op = "zero"  -> RZero(kind)
    [] e.op = "one"   -> ROne(kind)
    [] e.op = "clone" -> Reg(e.a)
    [] e.op = "neg"   -> RNeg(kind, Reg(e.a))
    [] e.op = "add"   -> RAdd(kind, Left(e), Reg(e.b))
    [] e.op = "sub"   -> RSub(kind, Left(e), Reg(e.b))
    [] e.op = "mul"   -> RMul(kind, Left(e), Reg(e.b))

RingAnswer(e) ==
  CASE e.op = "eq" -> [eq |-> Reg(e.a) = Reg(e.b), ne |-> Reg(e.a) # Reg(e.b)]
    [] e.op = "iszero" -> [eq |-> Reg(e.a) = RZero(kind), ne |-> Reg(e.a) # RZero(kind)]

\* the three kinds of steps
Open(k, n) == /\ kind' = k
              /\ regs' = [i \in 1..n |-> RZero(k)]
              /\ out' = <<>>
Write(d, v) == /\ regs' = [regs EXCEPT ![d + 1] = v]
               /\ out' = <<>>
               /\ UNCHANGED kind
Ask(ans) == /\ out' = ans
            /\ UNCHANGED <<kind, regs>>
=============================================================================
