--------------------------------- MODULE C07 ---------------------------------
EXTENDS EFloatOps, Driver
(* Results: x+n n+x x-n n-x x*n n*x x/n n/x, then for each compound form   *)
(* the target and the returned value, then x.                              *)
\* only one back end has a negative zero
Z(be, v) == IF IsZero(v) /\ be # "mpfr" THEN Zero ELSE v
Bad(ev) ==
  LET x == Obs(ev.a[1])
      n == Z(ev.be, Obs(ev.a[2]))
      r(k) == Obs(ev.r[k])
      be == ev.be
      int == ev.a[2].k = "N"
      \* a sum of operands of nearly equal size and opposite sign may not vanish where n is not exact
      A(a, b, c) == IF int THEN AddOK(be, a, b, c, 101) ELSE AddNear(be, a, b, c, 101)
      M(a, b, c) == IF int THEN MulOK(be, a, b, c, 101) ELSE MulNear(be, a, b, c, 101)
      ok(k) == CASE k \in {1, 2, 9} -> A(x, n, r(k))
                 [] k \in {3, 11} -> A(x, Neg(n), r(k))
                 [] k = 4 -> A(n, Neg(x), r(k))
                 [] k \in {5, 6, 13} -> M(x, n, r(k))
                 [] k \in {7, 15} -> DivOK(be, x, n, r(k), 101)
                 [] k = 8 -> DivOK(be, n, x, r(k), 101)
                 [] k \in {10, 12, 14, 16} -> ev.r[k] = ev.r[k - 1]
                 [] k = 17 -> ev.r[17] = ev.a[1]
  IN {k \in 1..17 : ~ok(k)}
AcceptC07(ev) == LET b == Bad(ev) IN IF b = {} THEN TRUE ELSE b
Next == Validate(AcceptC07)
=============================================================================
