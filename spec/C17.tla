--------------------------------- MODULE C17 ---------------------------------
EXTENDS Elem, Driver
Tol == D - 2
Exp(be, x, r) ==
  IF IsNaN(x) THEN IsNaN(r)
  ELSE IF IsInf(x) \/ (IsFin(x) /\ Mag(x) \succ 11) THEN (IF Sign(x) = 1 THEN IsInf(r) /\ r.s = 0 ELSE IsZero(r))
  ELSE LET f == ExpV(x) IN Near(be, r, f, Mul(f, AbsV(x)), Tol)
\* log x with f(ln x) and c(conditioning)
Log(be, x, r, div) ==
  IF IsNaN(x) THEN IsNaN(r)
  ELSE IF IsZero(x) THEN IsInf(r) /\ r.s = 1
  ELSE IF Sign(x) = -1 THEN IsNaN(r)
  ELSE IF IsInf(x) THEN ~IsFin(r)
  ELSE Near(be, r, DivC(LnV(x), div), One, Tol)
Log1p(be, x, r) ==
  IF ~IsFinite(x) THEN ~IsFin(r)
  ELSE LET y == Add(One, x)
       IN IF IsZero(x) THEN IsZero(r)
          ELSE IF IsZero(y) THEN ~IsFin(r)
          ELSE IF Sign(y) = -1 THEN IsNaN(r)
          ELSE Near(be, r, Ln1pV(x), DivC(x, y), Tol)
Loga(be, a, x, r) ==
  IF ~(IsFinite(a) /\ IsFinite(x)) THEN ~IsFin(r) \/ IsInf(a)
  ELSE IF Sign(a) <= 0 \/ Sign(x) <= 0 THEN TRUE
  ELSE LET l == LnV(a)
           f == DivC(LnV(x), l)
       IN IF IsZero(l) \/ Mag(l) \prec (0 - (D - 1)) THEN TRUE ELSE Near(be, r, f, DivC(Add(One, AbsV(f)), AbsV(l)), Tol)
Pow(be, x, a, r) ==
  IF IsNaN(x) \/ IsNaN(a) THEN TRUE
  ELSE IF IsZero(a) THEN IsFin(r) /\ Eq(r, One)
  ELSE IF ~(IsFinite(x) /\ IsFinite(a)) THEN TRUE
  ELSE IF IsZero(x) THEN (IF Sign(a) = 1 THEN IsZero(r) ELSE IsInf(r))
  ELSE IF Sign(x) = -1 /\ ~IsIntegral(a) /\ (IsNaN(r) \/ ~IsIntegral(RoundSig(a, D))) THEN IsNaN(r)   \* an exponent is known to its last digit only
  ELSE LET L == LnV(AbsV(x))
           y == MulC(a, L)
           neg == Sign(x) = -1 /\ ~IsIntegral(Half(IF IsIntegral(a) THEN a ELSE RoundSig(a, D)))
           sg == IF neg THEN 1 ELSE 0
       IN IF IsFin(y) /\ Mag(y) \succ 11 THEN (IF Sign(y) = 1 THEN IsInf(r) /\ r.s = sg ELSE IsZero(r))
          ELSE LET f == ExpV(y)
                   c == Mul(f, Add(AbsV(a), AbsV(y)))
               IN Near(be, r, IF neg THEN Neg(f) ELSE f, c, Tol)
AcceptC17(ev) ==
  LET r == Obs(ev.r[1])
      x == Obs(ev.a[1])
  IN CASE ev.op = "exp" -> Exp(ev.be, x, r)
       [] ev.op = "log" -> Log(ev.be, x, r, One)
       [] ev.op = "log10" -> Log(ev.be, x, r, Ln10V)
       [] ev.op = "log1p" -> Log1p(ev.be, x, r)
       [] ev.op = "loga" -> Loga(ev.be, x, Obs(ev.a[2]), r)
       [] ev.op = "pow" -> Pow(ev.be, x, Obs(ev.a[2]), r)
Next == Validate(AcceptC17)
=============================================================================
