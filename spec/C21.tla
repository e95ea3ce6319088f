--------------------------------- MODULE C21 ---------------------------------
(***************************************************************************)
(* Principal values.  The error of each part is at most 10^-(D-2) of       *)
(* |f| + |z f'|  (of 1 + |f| + |z f'| for the logarithm and the inverse    *)
(* functions).  Exactly on a branch cut either side is accepted.           *)
(***************************************************************************)
EXTENDS Complex, Driver
Tol == D - 2
RECURSIVE AddUp(_)
AddUp(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), AddUp(SubSeq(s, 2, Len(s))))
Rec(x) == DivC(One, x)
\* 1 / |w|, zero for w = 0 (a branch point: no conditioning term)
RecAbs(w) == IF CIsZero(w) THEN Zero ELSE Rec(N1(w))
Root(x) == SqrtC(Cut(x, Wd))
CutReal(f, r, s) == CNear(r, f, s, Tol) \/ CNear(r, CConj(f), s, Tol)
CutImag(f, r, s) == CNear(r, f, s, Tol) \/ CNear(r, CNeg(CConj(f)), s, Tol)
Outside(x) == Lt(One, AbsV(x))
Fn(op, z, r) ==
  LET a == N1(z)
      near(f, c) == CNear(r, f, Add(N1(f), c), Tol)
      \* the argument is a pole up to its last digits
      pole(c) == CIsZero(c) \/ Le(N1(c), Shift(a, 3 - D))
      \* 1 - z^2 and 1 + z^2
      m == CSub(COne, CMul(z, z))
      p == CAdd(COne, CMul(z, z))
      arc(f, w, cut) == LET c == IF CIsZero(w) THEN Zero ELSE DivC(a, Root(N1(w)))
                            s == AddUp(<<One, N1(f), c>>)
                        IN CASE cut = "r" -> CutReal(f, r, s) [] cut = "i" -> CutImag(f, r, s) [] OTHER -> CNear(r, f, s, Tol)
      arct(f, w, cut) == LET s == AddUp(<<One, N1(f), DivC(a, N1(w))>>)
                         IN CASE cut = "r" -> CutReal(f, r, s) [] cut = "i" -> CutImag(f, r, s) [] OTHER -> CNear(r, f, s, Tol)
  IN CASE op = "csqrt" -> LET f == CSqrt(z) IN IF IsZero(z.y) /\ Sign(z.x) = -1 THEN CutReal(f, r, N1(f)) ELSE near(f, Zero)
       [] op = "cexp" -> LET f == CExp(z) IN near(f, Mul(a, N1(f)))
       [] op \in {"clog", "clog10"} ->
            IF CIsZero(z) THEN TRUE
            ELSE LET l == CLog(z)
                     f == IF op = "clog" THEN l ELSE Cx(DivC(l.x, Ln10V), DivC(l.y, Ln10V))
                     s == Add(One, N1(f))
                 IN IF IsZero(z.y) /\ Sign(z.x) = -1 THEN CutReal(f, r, s) ELSE CNear(r, f, s, Tol)
       [] op = "csin" -> near(CSin(z), Mul(a, N1(CCos(z))))
       [] op = "ccos" -> near(CCos(z), Mul(a, N1(CSin(z))))
       [] op = "csinh" -> near(CSinh(z), Mul(a, N1(CCosh(z))))
       [] op = "ccosh" -> near(CCosh(z), Mul(a, N1(CSinh(z))))
       [] op = "ctan" -> LET c == CCos(z) IN pole(c) \/ near(CDivC(CSin(z), c), DivC(a, Norm(c)))
       [] op = "ctanh" -> LET c == CCosh(z) IN pole(c) \/ near(CDivC(CSinh(z), c), DivC(a, Norm(c)))
       [] op = "casin" -> arc(CAsin(z), m, IF IsZero(z.y) /\ Outside(z.x) THEN "r" ELSE "")
       [] op = "cacos" -> arc(CAcos(z), m, IF IsZero(z.y) /\ Outside(z.x) THEN "r" ELSE "")
       [] op = "cacosh" -> arc(CAcosh(z), m, IF IsZero(z.y) /\ Lt(z.x, One) THEN "r" ELSE "")
       [] op = "casinh" -> arc(CAsinh(z), p, IF IsZero(z.x) /\ Outside(z.y) THEN "i" ELSE "")
       [] op = "catanh" -> IF CIsZero(m) THEN TRUE ELSE arct(CAtanh(z), m, IF IsZero(z.y) /\ Outside(z.x) THEN "r" ELSE "")
       [] op = "catan" -> IF CIsZero(p) THEN TRUE ELSE arct(CAtan(z), p, IF IsZero(z.x) /\ Outside(z.y) THEN "i" ELSE "")
Pow(op, z, w, r) ==
  IF CIsZero(z) THEN (IF Sign(w.x) = 1 THEN CIsZero(r) ELSE TRUE)
  ELSE LET l == CLog(z)
           e == CMulC(w, l)
           f == CExp(e)
           b == N1(w)
           s == Mul(N1(f), AddUp(<<One, b, Mul(b, N1(l)), Mul(b, N1(l))>>))
           g == CExp(CMulC(w, CConj(l)))
       IN CNear(r, f, s, Tol) \/ (IsZero(z.y) /\ Sign(z.x) = -1 /\ CNear(r, g, s, Tol))
AcceptC21(ev) ==
  CASE ev.op = "carg" -> LET z == ObsC(ev.a, 1)
                             r == Obs(ev.r[1])
                         IN IF CIsZero(z) THEN IsZero(r) ELSE LET f == Atan2V(z.y, z.x) IN Near(ev.be, r, f, Zero, Tol) \/ (IsZero(z.y) /\ Sign(z.x) = -1 /\ Near(ev.be, r, Neg(f), Zero, Tol))
    [] ev.op = "cpolar" -> LET rho == Obs(ev.a[1])
                               t == Obs(ev.a[2])
                               s == SinV(t)
                               c == CosV(t)
                               a == AbsV(Mul(rho, t))
                           IN /\ Within(Obs(ev.r[1]), Mul(rho, c), Shift(Add(AbsV(Mul(rho, c)), AbsV(Mul(a, s))), 0 - Tol))
                              /\ Within(Obs(ev.r[2]), Mul(rho, s), Shift(Add(AbsV(Mul(rho, s)), AbsV(Mul(a, c))), 0 - Tol))
    [] ev.op \in {"cpow", "cpowr", "crpow"} -> ev.r[3].v /\ Pow(ev.op, ObsC(ev.a, 1), ObsC(ev.a, 3), ObsC(ev.r, 1))
    [] OTHER -> ev.r[3].v /\ Fn(ev.op, ObsC(ev.a, 1), ObsC(ev.r, 1))
Next == Validate(AcceptC21)
=============================================================================
