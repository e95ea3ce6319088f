--------------------------------- MODULE C18 ---------------------------------
EXTENDS Elem, Driver
Tol == D - 2
MaxArg == 60          \* arguments up to 10^60
Circ(be, op, x, r) ==
  IF ~IsFinite(x) THEN IsNaN(r)
  ELSE IF IsFin(x) /\ Mag(x) \succ MaxArg + 1 THEN TRUE
  ELSE LET s == SinV(x)
           c == CosV(x)
           a == AbsV(x)
           n(f, g) == Near(be, r, f, g, Tol)
       IN CASE op = "sin" -> n(s, Mul(a, c))
            [] op = "cos" -> n(c, Mul(a, s))
            [] op = "tan" -> n(DivC(s, c), DivC(a, MulC(c, c)))
            [] op = "sec" -> n(DivC(One, c), DivC(Mul(a, s), MulC(c, c)))
            [] op = "csc" -> IF IsZero(x) THEN IsInf(r) ELSE n(DivC(One, s), DivC(Mul(a, c), MulC(s, s)))
            [] op = "cot" -> IF IsZero(x) THEN IsInf(r) ELSE n(DivC(c, s), DivC(a, MulC(s, s)))
ArcC(be, op, x, r) ==     \* arcsine, arccosine
  IF ~IsFinite(x) \/ Lt(One, AbsV(x)) THEN IsNaN(r)
  ELSE LET k == CoV(x)
           c == IF IsZero(k) THEN Zero ELSE DivC(AbsV(x), k)
       IN Near(be, r, IF op = "asin" THEN AsinV(x) ELSE AcosV(x), c, Tol)
Atan(be, x, r) ==
  IF IsNaN(x) THEN IsNaN(r)
  ELSE IF IsInf(x) THEN IsNaN(r) \/ (IsFin(r) /\ Sign(r) = Sign(x) /\ Close(AbsV(r), PiHalfV, Tol))
  ELSE Near(be, r, AtanV(x), Zero, Tol)
Atan2(be, y, x, r) ==
  IF ~(IsFinite(x) /\ IsFinite(y)) THEN TRUE
  ELSE IF IsZero(x) /\ IsZero(y) THEN IsZero(r)
  ELSE Near(be, r, Atan2V(y, x), Zero, Tol)
AcceptC18(ev) ==
  LET r == Obs(ev.r[1])
      x == Obs(ev.a[1])
  IN CASE ev.op \in {"sin", "cos", "tan", "sec", "csc", "cot"} -> Circ(ev.be, ev.op, x, r)
       [] ev.op \in {"asin", "acos"} -> ArcC(ev.be, ev.op, x, r)
       [] ev.op = "atan" -> Atan(ev.be, x, r)
       [] ev.op = "atan2" -> Atan2(ev.be, x, Obs(ev.a[2]), r)
       [] ev.op = "sincos" -> Circ(ev.be, "sin", x, r) /\ Circ(ev.be, "cos", x, Obs(ev.r[2])) /\ (~IsFinite(x) \/ (ev.r[3].v /\ ev.r[4].v))
Next == Validate(AcceptC18)
=============================================================================
