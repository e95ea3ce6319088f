--------------------------------- MODULE C19 ---------------------------------
EXTENDS Elem, Driver
Tol == D - 2
Hyp(be, op, x, r) ==
  IF IsNaN(x) THEN IsNaN(r)
  ELSE IF IsInf(x) \/ (IsFin(x) /\ Mag(x) \succ 10)
  THEN CASE op = "sinh" -> IsInf(r) /\ r.s = NegBit(x)
         [] op = "cosh" -> IsInf(r) /\ r.s = 0
         [] op = "tanh" -> IsFin(r) /\ Close(r, IntV(Sign(x)), Tol)
  ELSE LET a == AbsV(x)
           n(f, g) == Near(be, r, f, g, Tol)
       IN CASE op = "sinh" -> n(SinhV(x), Mul(a, CoshV(x)))
            [] op = "cosh" -> n(CoshV(x), Mul(a, SinhV(x)))
            [] op = "tanh" -> n(TanhV(x), Zero)
Asinh(be, x, r) ==
  IF IsNaN(x) THEN IsNaN(r) ELSE IF IsInf(x) THEN ~IsFin(r) ELSE Near(be, r, AsinhV(x), Zero, Tol)
Acosh(be, x, r) ==
  IF IsNaN(x) \/ Lt(x, One) THEN IsNaN(r)
  ELSE IF IsInf(x) THEN ~IsFin(r)
  ELSE IF Eq(x, One) THEN IsZero(r)
  ELSE LET q == Sub(Mul(x, x), One) IN Near(be, r, AcoshV(x), IF Mag(x) \succ 200 THEN One ELSE DivC(x, SqrtC(q)), Tol)
Atanh(be, x, r) ==
  IF ~IsFinite(x) \/ Lt(One, AbsV(x)) THEN IsNaN(r)
  ELSE IF Eq(AbsV(x), One) THEN ~IsFin(r)
  ELSE Near(be, r, AtanhV(x), DivC(AbsV(x), Sub(One, Mul(x, x))), Tol)
AcceptC19(ev) ==
  LET r == Obs(ev.r[1])
      x == Obs(ev.a[1])
  IN CASE ev.op \in {"sinh", "cosh", "tanh"} -> Hyp(ev.be, ev.op, x, r)
       [] ev.op = "asinh" -> Asinh(ev.be, x, r)
       [] ev.op = "acosh" -> Acosh(ev.be, x, r)
       [] ev.op = "atanh" -> Atanh(ev.be, x, r)
       [] ev.op = "sinhcosh" -> ~IsFinite(x) \/ (Hyp(ev.be, "sinh", x, r) /\ Hyp(ev.be, "cosh", x, Obs(ev.r[2])) /\ ev.r[3].v /\ ev.r[4].v)
Next == Validate(AcceptC19)
=============================================================================
