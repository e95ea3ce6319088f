--------------------------------- MODULE C16 ---------------------------------
(* Roots and integer powers, decided by their defining equations.            *)
EXTENDS Elem, Driver
Tol == D - 2
\* r^p = x up to p units (p > 0; x, r > 0)
IsRoot(r, x, p) == IsFin(r) /\ Sign(r) = 1 /\ LET q == PowC(Cut(r, Wd), p) IN Within(q, x, Mul(x, Fin(p, 0 - Tol)))
\* r^p x = 1
IsInvRoot(r, x, p) == IsFin(r) /\ Sign(r) = 1 /\ LET q == MulC(PowC(Cut(r, Wd), p), x) IN Within(q, One, Fin(p, 0 - Tol))
Odd(p) == ~((p %% 2) \doteq 0)
Root(be, x, r, p) ==       \* p > 0
  IF IsZero(x) THEN IsZero(r)
  ELSE IF Sign(x) = 1 THEN IsRoot(r, x, p)
  ELSE IF Odd(p) THEN IsFin(r) /\ IsRoot(Neg(r), Neg(x), p)
  ELSE IsNaN(r)
InvRoot(be, x, r, p) ==
  IF IsZero(x) THEN ~IsFinite(r)
  ELSE IF p \doteq 1 THEN Near(be, r, DivC(One, x), Zero, Tol)          \* which may be out of range
  ELSE IF Sign(x) = 1 THEN IsInvRoot(r, x, p)
  ELSE IF Odd(p) THEN IsFin(r) /\ IsInvRoot(Neg(r), Neg(x), p)
  ELSE IsNaN(r)
\* x^n for any integer n
IPow(be, x, r, n) ==
  IF n \doteq 0 THEN IsFin(r) /\ Eq(r, One)
  ELSE IF IsZero(x) THEN (IF n \succ 0 THEN IsZero(r) ELSE IsInf(r))
  ELSE LET m == BAbs(n)
           p == PowC(Cut(AbsV(x), Wd), m)
           s == IF Sign(x) = -1 /\ Odd(m) THEN Neg(p) ELSE p
           c == Mul(AbsV(p), Fin(m, -2))
       IN IF n \succ 0 THEN Near(be, r, s, c, Tol)
          ELSE LET i == DivC(One, s) IN Near(be, r, i, Mul(AbsV(i), Fin(m, -2)), Tol)
AcceptC16(ev) ==
  LET r == Obs(ev.r[1])
      x == Obs(ev.a[1])
      p == Dec(ev.a[2].v)
  IN IF ev.op = "pow2" THEN IPow(ev.be, IntV(2), r, Dec(ev.a[1].v))
     ELSE IF ~IsFinite(x) THEN (ev.op = "powi" /\ p \doteq 0) \/ (IF IsNaN(x) \/ ev.op # "powi" THEN ~IsFin(r) \/ ev.op \in {"rootn", "rootninv"} ELSE IF p \succ 0 THEN IsInf(r) ELSE IsZero(r))
     ELSE CASE ev.op = "sqrt" -> Root(ev.be, x, r, 2)
            [] ev.op = "cbrt" -> Root(ev.be, x, r, 3)
            [] ev.op = "rootn" -> IF p \doteq 0 THEN IsNaN(r) ELSE IF p \succ 0 THEN Root(ev.be, x, r, p) ELSE InvRoot(ev.be, x, r, 0 -- p) 
            [] ev.op = "rootninv" -> IF p \doteq 0 THEN IsNaN(r) ELSE IF p \succ 0 THEN InvRoot(ev.be, x, r, p) ELSE Root(ev.be, x, r, 0 -- p)
            [] ev.op = "powi" -> IPow(ev.be, x, r, p)
Next == Validate(AcceptC16)
=============================================================================
