--------------------------------- MODULE C15 ---------------------------------
EXTENDS EFloatOps, Driver, Config
\* digits guaranteed at precision setting n (0: full)
Dig(be, n) == LET m == IF n \preceq 0 THEN CfgDigits ELSE BMin(CfgDigits, n) IN IF be = "gmp" THEN (IF m \prec 15 THEN 13 ELSE m -- 2) ELSE IF be = "mpfr" THEN CfgDigits -- 1 ELSE m
Full(n) == n \doteq 0
\* the compound and the binary form agree (a copy of a binary value starts out at full precision)
Rep(ev) == ev.r[2].v \/ (ev.be = "gmp" /\ ~Full(Dec(ev.a[Len(ev.a)].v)))
AcceptC15(ev) ==
  LET x == Obs(ev.a[1])
      r == Obs(ev.r[1])
      P(k) == Dec(ev.a[k].v)
      D(k) == Dig(ev.be, P(k))
  IN CASE ev.op = "mulp" -> (IF Full(P(3)) THEN MulOK(ev.be, x, Obs(ev.a[2]), r, D(3)) ELSE MulNear(ev.be, x, Obs(ev.a[2]), r, D(3))) /\ Rep(ev)
       [] ev.op = "sqrp" -> (IF Full(P(2)) THEN MulOK(ev.be, x, x, r, D(2)) ELSE MulNear(ev.be, x, x, r, D(2))) /\ Rep(ev)
       [] ev.op = "divp" -> DivOK(ev.be, x, Obs(ev.a[2]), r, D(3) -- 1)
       [] ev.op = "invp" -> DivOK(ev.be, One, x, r, D(2) -- 1)
       [] ev.op = "sqtp" -> IsFin(r) /\ Sign(r) = 1 /\ Close(Mul(r, r), x, D(2) -- 1)
Next == Validate(AcceptC15)
=============================================================================
