--------------------------------- MODULE C24 ---------------------------------
(* Bernoulli numbers, single and in tables, and zeta at the integers.        *)
EXTENDS Special, Driver
Tol == D - 2
Rel(be, r, f) == Near(be, r, f, Zero, Tol)
Bern(be, r, n) == LET b == BernV(n) IN IF IsZero(b) THEN IsZero(r) ELSE Rel(be, r, b)
ZInt(be, r, n) ==
  CASE n \doteq 1 -> IsInf(r) /\ Sign(r) = 1
    [] n \doteq 0 -> IsFin(r) /\ Eq(r, Fin(-5, -1))
    [] n \succ 1 -> Rel(be, r, ZetaInt(n))
    [] OTHER -> IF (n %% 2) \doteq 0 THEN IsZero(r) ELSE LET m == 1 -- n IN Rel(be, r, Neg(DivC(BernV(m), Int2V(m))))
AcceptC24(ev) ==
  LET n == Dec(ev.a[1].v)
  IN CASE ev.op = "bern" -> Bern(ev.be, Obs(ev.r[1]), n)
       [] ev.op = "bernt" -> Len(ev.r) >= n + 1 /\ \A k \in 0..(Len(ev.r) - 1) : Bern(ev.be, Obs(ev.r[k + 1]), k)
       [] ev.op = "zint" -> ZInt(ev.be, Obs(ev.r[1]), n)
Next == Validate(AcceptC24)
=============================================================================
