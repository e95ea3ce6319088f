--------------------------------- MODULE C29 ---------------------------------
(* The helper algorithms keep their mathematical contracts.  A root finder    *)
(* is checked by what a caller sees: where it asks for the function, what it  *)
(* returns and whether it reports success.                                    *)
EXTENDS Complex, Literal, Driver
Prec(r, v, s, d) == IsFinite(r) /\ Within(r, v, Shift(s, 0 - d))
ObsAll(s, from) == [k \in 1..(Len(s) - from + 1) |-> Obs(s[from + k - 1])]
SumFrom(f(_), n) == LET step(q) == <<q[1] + 1, Add(q[2], f(q[1]))>> IN Times(step, n, <<1, Zero>>)[2]
LargestOf(s) == LET step(q) == <<q[1] + 1, IF Le(q[2], AbsV(s[q[1]])) THEN AbsV(s[q[1]]) ELSE q[2]>> IN Times(step, Len(s), <<1, Zero>>)[2]
Ok(r, b) == r.k = "b" /\ r.v = b

\* ---- interpolation: a = x, x1, y1, x2, y2 ...  (sorted by abscissa); digits the result is held to
Interp(a, r, d) ==
  LET x == a[1]
      n == (Len(a) - 1) \div 2
      X(k) == a[2 * k]
      Y(k) == a[2 * k + 1]
  IN IF n = 0 THEN IsZero(r)
     ELSE IF n = 1 \/ Le(x, X(1)) THEN IsFinite(r) /\ Eq(r, Y(1))
     ELSE IF Le(X(n), x) THEN IsFinite(r) /\ Eq(r, Y(n))
     ELSE LET k == CHOOSE k \in 1..(n - 1) : Le(X(k), x) /\ Lt(x, X(k + 1))
              dx == Sub(X(k + 1), X(k))
              dy == Sub(Y(k + 1), Y(k))
              v == Add(Mul(Y(k), dx), Mul(Sub(x, X(k)), dy))          \* dx times the value
              s == Mul(dx, Add(AbsV(Y(k)), AbsV(Y(k + 1))))
              o == Mul(AbsV(dy), Add(AbsV(x), Add(AbsV(X(k)), AbsV(X(k + 1)))))      \* abscissas are observed to a few digits beyond the precision
          IN IsFinite(r) /\ Within(Mul(r, dx), v, Add(Shift(s, 0 - d), Shift(o, 0 - (d + 10))))
\* ---- running sums
SgnOf(neg, k) == IF (k % 2 = 1) = neg THEN -1 ELSE 1
AltSum(neg, init, start, t, r) ==
  LET v == Add(start, SumFrom(LAMBDA k : Add(init, IF SgnOf(neg, k) = -1 THEN Neg(t[k]) ELSE t[k]), Len(t)))
      s == Add(AbsV(start), Mul(Int2V(Len(t) + 1), Add(AbsV(init), LargestOf(t))))
  IN Prec(r, v, s, D - 1)
CoefExp(x, init, start, t, r) ==
  LET step(q) == <<q[1] + 1, Add(q[2], Mul(t[q[1]], q[3])), Mul(q[3], x), Add(q[4], AbsV(Mul(t[q[1]], q[3])))>>
      z == Times(step, Len(t), <<1, start, init, AbsV(start)>>)
  IN Prec(r, z[2], z[4], D - 3)
CCoefExp(x, t, rx, ry) ==
  LET step(q) == <<q[1] + 1, CAdd(q[2], CMul(CRe(t[q[1]]), q[3])), CCut(CMul(q[3], x)), Add(q[4], Mul(AbsV(t[q[1]]), N1(q[3])))>>
      z == Times(step, Len(t), <<1, CZero, COne, Zero>>)
  IN Prec(rx, z[2].x, z[4], D - 3) /\ Prec(ry, z[2].y, z[4], D - 3)
\* ---- powers of integers
JPow(be, j, x, r) == IF j \doteq 1 THEN IsFin(r) /\ Eq(r, One)
                     ELSE LET l == LnV(Int2V(j))
                              y == MulC(x, l)
                              f == ExpV(y)
                          IN Near(be, r, f, Mul(f, Add(One, Mul(AbsV(y), Int2V(2)))), D - 3)
CJPow(j, x, rx, ry) == IF j \doteq 1 THEN IsFin(rx) /\ Eq(rx, One) /\ IsZero(ry)
                       ELSE LET l == LnV(Int2V(j))
                                z == CExp(Cx(MulC(x.x, l), MulC(x.y, l)))
                                s == Mul(N1(z), Add(One, Mul(Mul(N1(x), l), Int2V(2))))
                            IN Prec(rx, z.x, s, D - 3) /\ Prec(ry, z.y, s, D - 3)
\* ---- digit scale: (50, 1/6) (100, 1/3) (200, 1/2) (300, 1), linear between, constant outside; in 600ths
Scale600(d) == IF d <= 50 THEN 100 ELSE IF d <= 100 THEN 100 + 2 * (d - 50) ELSE IF d <= 200 THEN 200 + (d - 100) ELSE IF d <= 300 THEN 300 + 3 * (d - 200) ELSE 600
\* ---- roots: c = factor, root 1, ..., root n
NRoots(c) == Len(c) - 1
SignAt(c, x) == LET step(q) == <<q[1] + 1, q[2] * Sign(Sub(x, c[q[1] + 1]))>> IN Times(step, NRoots(c), <<1, Sign(c[1])>>)[2]
NearRoot(c, r, lo, hi, b) == \E k \in 1..NRoots(c) : Within(r, c[k + 1], b) /\ Le(Sub(lo, b), c[k + 1]) /\ Le(c[k + 1], Add(hi, b))
Inside(x, lo, hi) == IsFinite(x) /\ Le(lo, x) /\ Le(x, hi)
Slk(lo, hi) == Shift(Add(AbsV(lo), AbsV(hi)), 2 - D)
Again(r) == (r[7].k = r[2].k /\ Obs(r[7]) = Obs(r[2])) /\ r[8].v = r[3].v
Bisect(lo, hi, tol, c, r) ==
  LET x == Obs(r[2])
      ok == r[3].v
      sl == SignAt(c, lo)
      sh == SignAt(c, hi)
      b == Add(tol, Slk(lo, hi))
  IN /\ Ok(r[1], FALSE) /\ r[3].k = "b" /\ Again(r)
     /\ Inside(Obs(r[5]), lo, hi) /\ Inside(Obs(r[6]), lo, hi)
     /\ IF sl * sh > 0 THEN ok = FALSE /\ IsZero(x)
        ELSE ok = TRUE /\ Inside(x, lo, hi) /\ NearRoot(c, x, lo, hi, b)
\* the bracket's middle lies on the outer side of all roots: monotone convergence
RECURSIVE Distinct(_, _)
Distinct(c, k) == k > Len(c) \/ ((\A i \in 2..(k - 1) : Le(Fin(1, -3), AbsV(Sub(c[i], c[k])))) /\ Distinct(c, k + 1))
Outer(lo, hi, c) ==
  LET m == Half(Add(lo, hi))
  IN Distinct(c, 2) /\ \/ (\A k \in 2..Len(c) : Le(c[k], m)) /\ (\E k \in 2..Len(c) : Le(lo, c[k]) /\ (\A i \in 2..Len(c) : Le(c[i], c[k])) /\ Lt(Add(lo, Fin(1, -3)), c[k]))
                       \/ (\A k \in 2..Len(c) : Le(m, c[k])) /\ (\E k \in 2..Len(c) : Le(c[k], hi) /\ (\A i \in 2..Len(c) : Le(c[k], c[i])) /\ Lt(c[k], Sub(hi, Fin(1, -3))))
Newton(lo, hi, tol, c, r) ==
  LET x == Obs(r[2])
      ok == r[3].v
      b == Add(Mul(Int2V(Len(c)), tol), Slk(lo, hi))
  IN /\ Ok(r[1], FALSE) /\ r[3].k = "b" /\ Again(r)
     /\ Inside(Obs(r[5]), lo, hi) /\ Inside(Obs(r[6]), lo, hi)
     /\ IF ok THEN Inside(x, lo, hi) /\ \E k \in 2..Len(c) : Within(x, c[k], b) ELSE IsZero(x)
     /\ Outer(lo, hi, c) => ok = TRUE
\* ---- polynomials by coefficients, lowest first
PolyV(c, x) == LET step(q) == <<q[1] - 1, Add(Mul(q[2], x), c[q[1]])>> IN Times(step, Len(c), <<Len(c), Zero>>)[2]
Diff(c) == [k \in 1..(Len(c) - 1) |-> Mul(Int2V(k), c[k + 1])]
AbsAll(c) == [k \in 1..Len(c) |-> AbsV(c[k])]
DefH == Fin(1, 0 - ((D * 115 + 250) \div 500))
Deriv(dflt, x, h0, c, r) ==
  LET h == IF dflt THEN DefH ELSE h0
      v == PolyV(Diff(c), x)
      s == DivC(PolyV(AbsAll(c), Add(AbsV(x), Mul(Int2V(3), AbsV(h)))), AbsV(h))
  IN Prec(Obs(r[1]), v, s, D - 2) /\ Ok(r[2], TRUE)
\* the trapezoid sum with n steps of a polynomial of degree three at most: the integral and a quadratic term
Integ(c) == [k \in 1..(Len(c) + 1) |-> IF k = 1 THEN Zero ELSE DivC(c[k - 1], Int2V(k - 1))]
TrapN(c, lo, hi, n) ==
  LET p == Integ(c)
      h == DivC(Sub(hi, lo), n)
      e == Mul(Mul(h, h), Sub(PolyV(Diff(c), hi), PolyV(Diff(c), lo)))
  IN Cut(Add(Sub(PolyV(p, hi), PolyV(p, lo)), DivC(e, Int2V(12))), Wd)
P2(k) == Int2V(2 ^^ k)
TrapD(c, lo, hi, k) == LET a == TrapN(c, lo, hi, P2(k)) b == TrapN(c, lo, hi, P2(k + 1)) IN AbsV(Sub(DivC(a, b), One))
\* stops at the first k > 3 at which doubling the steps changes the value by less than tol (relatively)
Trap(dflt, lo, hi, tol0, c, r) ==
  LET tol == IF dflt THEN Fin(1, 0 - (D \div 2)) ELSE tol0
      x == Obs(r[2])
      at(k) == LET v == TrapN(c, lo, hi, P2(k + 1)) IN Prec(x, v, Mul(AbsV(v), Int2V(10)), D - 6)
      less(k, f) == Lt(TrapD(c, lo, hi, k), Mul(tol, Fin(f, -3)))
  IN /\ Ok(r[1], FALSE) /\ Ok(r[3], TRUE)
     /\ LET a == IF Le(lo, hi) THEN lo ELSE hi b == IF Le(lo, hi) THEN hi ELSE lo IN Inside(Obs(r[5]), a, b) /\ Inside(Obs(r[6]), Sub(a, Slk(a, b)), Add(b, Slk(a, b)))
     /\ \E k \in 4..14 : at(k) /\ less(k, 1001) /\ (\A j \in 4..(k - 1) : ~less(j, 999))
AcceptC29(ev) ==
  LET o(k) == Obs(ev.r[k])
      a(k) == Obs(ev.a[k])
      n(k) == Dec(ev.a[k].v)
  IN CASE ev.op = "interp" -> Interp(ObsAll(ev.a, 1), o(1), D - 2)
       [] ev.op = "interpd" -> Interp(ObsAll(ev.a, 1), o(1), 14)
       [] ev.op = "interpm" -> Interp(ObsAll(ev.a, 1), o(1), 14)
       [] ev.op = "ptless" -> Ok(ev.r[1], Lt(a(1), a(3))) /\ Ok(ev.r[2], Lt(a(3), a(1)))
       [] ev.op = "altsum" -> AltSum(n(1) \doteq 1, IF n(2) \doteq 1 THEN Zero ELSE a(3), a(4), ObsAll(ev.a, 5), o(1))
       [] ev.op = "coefexp" -> CoefExp(a(2), IF n(1) \doteq 1 THEN One ELSE a(3), a(4), ObsAll(ev.a, 5), o(1))
       [] ev.op = "ccoefexp" -> CCoefExp(Cx(a(1), a(2)), ObsAll(ev.a, 3), o(1), o(2))
       [] ev.op = "jpow" -> \A k \in 1..Len(ev.r) : JPow(ev.be, n(k + 1), a(1), o(k))
       [] ev.op = "cjpow" -> \A k \in 1..(Len(ev.r) \div 2) : CJPow(n(k + 2), Cx(a(1), a(2)), o(2 * k - 1), o(2 * k))
       [] ev.op = "dscale" -> Within(Mul(o(1), Int2V(600)), Int2V(Scale600(D)), Fin(1, -11)) /\ Ok(ev.r[2], TRUE)
       [] ev.op = "ncast" ->
            IF ev.a[1].v \in {"f", "d", "l"} THEN LET v == Obs(ev.r[1]) w == LitValue(ev.a[2].v) IN IsFinite(v) /\ Within(v, w, Shift(AbsV(w), IF ev.a[1].v = "f" THEN -7 ELSE IF ev.a[1].v = "d" THEN -15 ELSE -19))
            ELSE IF ev.a[1].v = "e" THEN LET v == Obs(ev.r[1]) w == LitValue(ev.a[2].v) IN IsFinite(v) /\ Within(v, w, Shift(AbsV(w), 1 - D)) /\ Ok(ev.r[2], TRUE)
            ELSE ev.r[1].v = ev.a[2].v /\ ev.r[2].v = ev.a[2].v
       [] ev.op = "bisect" -> Bisect(a(1), a(2), a(3), ObsAll(ev.a, 4), ev.r)
       [] ev.op = "newton" -> Newton(a(1), a(2), a(3), ObsAll(ev.a, 4), ev.r)
       [] ev.op = "deriv" -> Deriv(n(1) \doteq 1, a(2), a(3), ObsAll(ev.a, 4), ev.r)
       [] ev.op = "trap" -> Trap(n(1) \doteq 1, a(2), a(3), a(4), ObsAll(ev.a, 5), ev.r)
       [] ev.op = "trapper" -> LET p == a(1) v == DivC(Mul(Int2V(2), PiV), SqrtC(Sub(Mul(p, p), One))) IN Prec(o(1), v, Mul(v, Int2V(100)), D - 4) /\ Ok(ev.r[2], TRUE)
Next == Validate(AcceptC29)
=============================================================================
