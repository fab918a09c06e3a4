------------------------------ MODULE ElemTrace ------------------------------
(* Observations of the floating point result v (D = e.den):                 *)
(*   e.cls         "nan", "inf", "-inf" or "fin"                            *)
(*   e.val         v * D, rounded to the integer it is close to             *)
(*   e.sq          v * v * D                                                *)
(*   e.exp, e.cos, e.sin   exp(v) * D, cos(v) * D, sin(v) * D               *)
(*   e.dir         |(x,y)| * (cos v, sin v) * D                             *)
(*   e.lg          (den * binary logarithm of |v|); e.sg the sign of v      *)
(*   e.re, e.im     parts of v / 2^e.sc, times D                            *)
(*   e.ratio       v / ln 2                                                 *)
(*   e.rem         real and imaginary part of the orders e.lv, times 48     *)
EXTENDS Elem, TraceLib
VARIABLE l

Q(n, e) == Rat(n, e.den)
Fits(e, a) ==
  CASE a.k = "sp" -> e.cls = a.v
    [] OTHER ->
       /\ e.cls = "fin"
       /\ CASE a.k = "rat" -> Q(e.val, e) = a.v
            [] a.k = "root" -> e.sg >= 0 /\ Q(e.sq, e) = a.v
            [] a.k = "ln" -> Q(e.exp, e) = a.v
            [] a.k = "p2" -> e.ratio = a.n
            [] a.k = "exp2" -> e.sg = a.s /\ e.lg = a.n /\ e.lgden = a.den
            [] a.k = "ang" -> e.inrange /\ Q(e.cos, e) = a.c /\ Q(e.sin, e) = a.s
            [] a.k = "cut" -> e.inrange /\ e.sg = a.s /\ <<Q(e.dir[1], e), Q(e.dir[2], e)>> = <<a.x, R(0)>>
            [] a.k = "dir" -> e.inrange /\ <<Q(e.dir[1], e), Q(e.dir[2], e)>> = <<a.x, a.y>>
Matches(e) ==
  /\ e.out = "ok"
  /\ CASE e.op = "session" -> TRUE
       [] e.op \in {"real", "atan2"} -> Fits(e, answer')
       [] e.op = "series" ->
            /\ [i \in 1..4 |-> Rat(e.c[i][1], e.c[i][2])] = answer'
            /\ \A i \in DOMAIN e.lv : Rat(e.rem[i][1], 48) = answer'[e.lv[i] + 1] /\ e.rem[i][2] = 0
       [] e.op = "cplx" /\ e.f = "ln" ->
            /\ e.inrange
            /\ Rat(e.norm, e.den * e.den) = RatAdd(RSq(answer'[1]), RSq(answer'[2]))
            /\ <<Q(e.dir[1], e), Q(e.dir[2], e)>> = answer'
            /\ (SgnR(answer'[2]) = 0 /\ SgnR(answer'[1]) < 0) => e.sg = 1     \* pi, not -pi
       [] e.op = "cplx" /\ "p2" \in {e.x.k, e.y.k} ->
            e.sc = answer'.sc /\ <<Q(e.re, e), Q(e.im, e)>> = answer'.z
       [] e.op = "cplx" -> <<Q(e.re, e), Q(e.im, e)>> = answer'

TInit == answer = <<>> /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ Call(Trace[l])
         /\ Report(l, Matches(Trace[l]), answer')
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<evars, l>>
=============================================================================
