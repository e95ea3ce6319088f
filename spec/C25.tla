--------------------------------- MODULE C25 ---------------------------------
(***************************************************************************)
(* Gamma and zeta of real and complex arguments.  The error is at most a    *)
(* few units multiplied by the condition number (the logarithm of gamma    *)
(* grows like |x| ln |x|; near a pole like 1 / distance; near a zero of     *)
(* zeta the error is relative to the smooth factor).                       *)
(***************************************************************************)
EXTENDS Special, Driver
Tol == D - 2
Rel(be, r, f, k) == Near(be, r, f, Mul(AbsV(f), k), Tol)
\* a pole, up to the last digits
AtPole(x, s) == Sign(x) # 1 /\ Le(PoleDist(x), Shift(s, 3 - D))
Gam(be, r, x) == IF Sign(x) # 1 /\ IsInt(x) THEN ~IsFinite(r) ELSE AtPole(x, x) \/ Rel(be, r, GammaV(x), KGam(x))
\* the argument is n + x, x small and exactly known
GamNear(be, r, n, x) ==
  LET y == Add(Int2V(n), x)
  IN IF n \succeq 1 THEN Rel(be, r, GammaV(y), KGam(y))
     ELSE IF IsZero(x) THEN ~IsFinite(r)
     ELSE Rel(be, r, GammaV(y), Add(Int2V(20), KGam(Sub(One, y))))
GamPM(be, p, m, x) == IsZero(x) \/ AtPole(Neg(AbsV(x)), AbsV(x)) \/
                      LET q == IF Sign(x) = 1 THEN <<p, m>> ELSE <<m, p>>
                      IN Rel(be, q[1], GammaV(AbsV(x)), KGam(AbsV(x))) /\ Rel(be, q[2], GammaV(Neg(AbsV(x))), KGam(Neg(AbsV(x))))
Grow(x) == LET a == Add(AbsV(x), One) IN Add(Int2V(10), MulC(a, Int2V(4 * BMax(1, Mag(a)))))
Zet(be, r, s) ==
  IF IsZero(s) THEN Rel(be, r, Fin(-5, -1), Zero)
  ELSE IF Eq(s, One) THEN ~IsFinite(r)
  ELSE IF Le(AbsV(Sub(s, One)), Fin(1, 3 - D)) THEN TRUE
  ELSE IF Le(Fin(5, -1), s) THEN (IF Mag(s) \succ 4 THEN Rel(be, r, One, Zero) ELSE LET i == DivC(One, AbsV(Sub(s, One))) IN Near(be, r, ZetaRight(s), MulC(i, i), Tol - 1) )
  ELSE LET c == ZetaRefl(s) IN Near(be, r, MulC(c, SinPiV(Half(s))), IF Le(Fin(-5, -1), s) THEN Int2V(50) ELSE Mul(AbsV(c), Grow(s)), Tol)
CDist(z) == IF Le(One, z.x) THEN One ELSE N1(CSub(z, CRe(Int2V(BMin(0, Nearest(z.x))))))
CK(z) == LET a == Add(N1(z), One)
         IN Add(Int2V(10), Add(MulC(a, Int2V(6 * BMax(1, Mag(a)))), IF IsZero(CDist(z)) THEN One ELSE DivC(N1(z), CDist(z))))
CGam(be, r, z) ==
  IF IsZero(z.y) THEN Gam(be, r.x, z.x) /\ (IsNaN(r.x) \/ IsZero(r.y))
  ELSE Le(CDist(z), Shift(N1(z), 3 - D)) \/ LET f == CGamma(z) IN CNear(r, f, Mul(N1(f), CK(z)), Tol)
CZet(be, r, s) ==
  IF IsZero(s.y) THEN Zet(be, r.x, s.x) /\ (IsNaN(r.x) \/ IsZero(r.y))
  ELSE LET p == N1(CSub(s, COne))
           a == Add(N1(s), One)
           k == MulC(MulC(a, Int2V(10 * BMax(1, Mag(a)))), Add(One, DivC(One, MulC(p, p))))
           f == CZeta(s)
           z == CZetaSize(s)
       IN Le(p, Fin(1, 3 - D)) \/ CNear(r, f, Mul(Add(z, One), k), Tol)
AcceptC25(ev) ==
  LET r == Obs(ev.r[1])
      x == Obs(ev.a[1])
      be == ev.be
  IN CASE ev.op = "gam" -> IF IsNaN(x) THEN IsNaN(r) ELSE IF IsFin(x) /\ ~IsZero(x) /\ Mag(x) \succ 15 THEN (Sign(x) = -1 \/ IsInf(r)) ELSE IF IsInf(x) THEN (Sign(x) = -1 \/ (IsInf(r) /\ Sign(r) = 1)) ELSE Gam(be, r, x)
       [] ev.op = "gamnear" -> GamNear(be, r, Dec(ev.a[1].v), Obs(ev.a[2]))
       [] ev.op = "gampm" -> GamPM(be, r, Obs(ev.r[2]), x)
       [] ev.op = "zeta" -> Zet(be, r, x)
       [] ev.op = "cgam" -> CGam(be, Cx(r, Obs(ev.r[2])), Cx(x, Obs(ev.a[2])))
       [] ev.op = "czeta" -> CZet(be, Cx(r, Obs(ev.r[2])), Cx(x, Obs(ev.a[2])))
Next == Validate(AcceptC25)
=============================================================================
