--------------------------------- MODULE C12 ---------------------------------
EXTENDS EFloatOps, Driver
ZeroOr(v) == IF v \doteq 0 THEN Zero ELSE Int2V(v)
\* integer part, fractional part, floor, ceiling, "is an integer", order, integer part as the difference, sign
IntsOK(ev) ==
  LET x == Obs(ev.a[1])
      r(i) == Obs(ev.r[i])
      big == IsFin(x) /\ x.e \succeq 0
      t == IF big THEN 0 ELSE TruncI(x)                \* |x| is not huge unless it is an integer
      tv == IF big THEN x ELSE ZeroOr(t)
      fr == Sub(x, tv)
      int == IsZero(fr)
      fl == IF int \/ Sign(x) = 1 THEN tv ELSE Sub(tv, One)
      ce == IF int \/ Sign(x) = -1 THEN tv ELSE Add(tv, One)
      d == Dec(ev.r[6].v)
  IN IF ~IsFinite(x) THEN Same(r(1), x) /\ Same(r(3), x) /\ Same(r(4), x) /\ ~ev.r[5].v
     ELSE /\ Same(r(1), tv)
          /\ Same(r(2), fr)
          \* one more or less than an integer of more digits than are held is the integer itself
          /\ Same(r(3), fl) \/ (Mag(tv) \succ 99 /\ Close(r(3), fl, 99))
          /\ Same(r(4), ce) \/ (Mag(tv) \succ 99 /\ Close(r(4), ce, 99))
          /\ ev.r[5].v = int
          /\ IF IsZero(x) THEN d \doteq 0
             ELSE \/ d \doteq (Mag(x) -- 1)
          /\ Same(r(7), x)                                  \* put together again
\* A binary value is observed to some 120 digits only (MPFR: 101; its full decimal expansion is longer): the parts are
\* judged by their relations to each other and to the value within that resolution.
BinIntsOK(ev) ==
  LET x == Obs(ev.a[1])
      r(i) == Obs(ev.r[i])
      tol == AbsV(Shift(x, 0 - (IF ev.be = "mpfr" THEN 101 ELSE 120)))
      d == Dec(ev.r[6].v)
      SignOK(v) == IsZero(v) \/ Sign(v) = Sign(x)
      int == IsZero(r(2))
      up(v, w) == Same(v, w) \/ (Mag(r(1)) \succ 99 /\ Close(v, w, 99))
  IN IF ~IsFinite(x) THEN Same(r(1), x) /\ Same(r(3), x) /\ Same(r(4), x) /\ ~ev.r[5].v
     ELSE IF IsZero(x) THEN (\A i \in {1, 2, 3, 4, 7} : IsZero(r(i))) /\ ev.r[5].v /\ d \doteq 0
     ELSE /\ \A i \in {1, 2, 3, 4, 7} : IsFinite(r(i))
          /\ IsZero(r(1)) \/ (r(1).e \succeq 0) \/ IsIntegral(r(1))
          /\ SignOK(r(1)) /\ SignOK(r(2))
          /\ Lt(AbsV(r(2)), One)
          /\ Within(Add(r(1), r(2)), x, tol)
          /\ Within(r(7), x, tol)
          /\ ev.r[5].v = int
          /\ Mag(x) \prec 100 /\ IsIntegral(x) /\ LowExp(x) \succeq 0 => int \/ Within(AbsV(r(2)), Zero, tol) \/ Within(AbsV(r(2)), One, tol)
          /\ up(r(3), IF int \/ Sign(x) = 1 THEN r(1) ELSE Sub(r(1), One))
          /\ up(r(4), IF int \/ Sign(x) = -1 THEN r(1) ELSE Add(r(1), One))
          \* the order is estimated: next to a power of ten it may be the neighbour
          /\ d \doteq (Mag(x) -- 1) \/ (BAbs(d -- (Mag(x) -- 1)) \preceq 1 /\ \E k \in {0, 1} : Close(AbsV(x), Fin(1, Mag(x) -- k), 5))
LdexpOK(ev) ==
  LET x == Obs(ev.a[1])
      n == Dec(ev.a[2].v)
      r == Obs(ev.r[1])
      s == IF n \succeq 0 THEN Mul(x, Int2V(2 ^^ n)) ELSE Mul(x, Fin(5 ^^ (0 -- n), n))
  IN IF ~IsFinite(x) THEN Same(r, x) ELSE IF IsZero(x) THEN IsZero(r) ELSE Result(ev.be, r, s, s, 99)
FrexpOK(ev) ==
  LET x == Obs(ev.a[1])
      m == Obs(ev.r[1])
      n == Dec(ev.r[2].v)
      b == Obs(ev.r[3])                                      \* ldexp of the two parts
  IN IF ~IsFinite(x) THEN Same(m, x)
     ELSE IF IsZero(x) THEN IsZero(m) /\ n \doteq 0
     ELSE /\ IsFin(m) /\ Sign(m) = Sign(x)
          /\ Le(Fin(5, -1), AbsV(m)) /\ Le(AbsV(m), One)
          /\ Close(b, x, 99)
          /\ (BAbs(n) \preceq 5000) => LET s == IF n \succeq 0 THEN Mul(m, Int2V(2 ^^ n)) ELSE Mul(m, Fin(5 ^^ (0 -- n), n)) IN Close(s, x, 99)
FmodOK(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.a[2])
      r == Obs(ev.r[1])
      e == BMin(IF IsZero(x) THEN y.e ELSE x.e, y.e)
      a == IF IsZero(x) THEN 0 ELSE BAbs(x.m) ** P10(x.e -- e)
      b == BAbs(y.m) ** P10(y.e -- e)
      w == Fin(a %% b, e)                                    \* the exact remainder of the magnitudes
      ww == IF Sign(x) = -1 THEN Neg(w) ELSE w
      tol == AbsV(Shift(x, 0 - 99))
      near(v) == Within(r, v, tol)
  IN IF IsZero(x) THEN IsZero(r)
     ELSE /\ IsFinite(r) /\ Le(AbsV(r), AbsV(y))
          /\ IsZero(r) \/ Sign(r) = Sign(x)
          \* at a whole quotient the rounding of the dividend decides between nothing and a whole divisor
          /\ near(ww) \/ (Within(w, Zero, tol) /\ near(IF Sign(x) = -1 THEN Neg(AbsV(y)) ELSE AbsV(y))) \/ (Within(w, AbsV(y), tol) /\ near(Zero))
AcceptC12(ev) == CASE ev.op = "ints" -> IF Binary(ev.be) THEN BinIntsOK(ev) ELSE IntsOK(ev) [] ev.op = "ldexp" -> LdexpOK(ev) [] ev.op = "frexp" -> FrexpOK(ev) [] ev.op = "fmod" -> FmodOK(ev)
Next == Validate(AcceptC12)
=============================================================================
