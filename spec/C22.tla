--------------------------------- MODULE C22 ---------------------------------
(***************************************************************************)
(* Factorials, double factorials, binomial coefficients, Pochhammer        *)
(* symbols.  Integer arguments: the exact integers.  Real arguments: the   *)
(* defining products and quotients, within a few units multiplied by the   *)
(* condition number of the expression.                                     *)
(***************************************************************************)
EXTENDS Special, Driver
Tol == D - 2
KFact(n) == IF n \preceq 1000 THEN Zero ELSE Zero
Pole(x) == Sign(x) # 1 /\ IsInt(x)
\* |r - f| <= 1 + k units of f
Rel(be, r, f, k) == Near(be, r, f, Mul(AbsV(f), k), Tol)
\* an integer: exactly, if it has no more digits than the type (the GMP back end holds binary fractions: a literal with
\* an exponent may be off by a unit of its last limb)
Exact(be, r, n, k) == IF NDig(n) <= D THEN IsFin(r) /\ (Eq(r, IntV(n)) \/ (be = "gmp" /\ Within(r, IntV(n), Shift(IntV(n), 0 - (D + 20))))) ELSE Rel(be, r, IntV(n), k)
Odd(n) == ~((n %% 2) \doteq 0)
\* n (n-2) (n-4) ...
StepProd(n) == LET step(q) == <<q[1] -- 2, q[2] ** q[1]>>
                   done(q) == q[1] \preceq 1
               IN Until(step, done, <<n, 1>>)[2]
DoubleFact(n) == IF n \prec 6000 THEN IntV(StepProd(n))
                 ELSE IF Odd(n) THEN LET h == (n ++ 1) // 2 IN DivC(FactV(n ++ 1), MulC(PowC(IntV(2), h), FactV(h)))
                 ELSE MulC(PowC(IntV(2), n // 2), FactV(n // 2))
Fact2(be, r, n) ==
  IF n \succeq 0 THEN (IF n \preceq 200 THEN Exact(be, r, StepProd(n), Zero) ELSE Rel(be, r, DoubleFact(n), KFact(n)))
  ELSE IF ~Odd(n) THEN IsNaN(r)
  ELSE LET m == (0 -- n) -- 2
           s == IF ((((0 -- n) -- 1) // 2) %% 2) \doteq 0 THEN One ELSE Int2V(-1)
       IN Rel(be, r, DivC(s, DoubleFact(m)), KFact(m))
StepFact(n) == LET step(q) == <<q[1] + 1, q[2] ** q[1]>> IN Times(step, n, <<1, 1>>)[2]
Fact(be, r, n) == IF n \preceq 200 THEN Exact(be, r, StepFact(n), Zero) ELSE Rel(be, r, FactV(n), KFact(n))
Bin(n, j) == LET k == BMin(j, n -- j)
                 step(q) == <<q[1] + 1, (q[2] ** ((n -- k) ++ q[1])) // q[1]>>
             IN Times(step, k, <<1, 1>>)[2]
Binomial(be, r, n, k) == IF k \succ n THEN IsNaN(r) ELSE LET b == Bin(n, k) IN IF n \preceq 160 THEN Exact(be, r, b, Zero) ELSE Rel(be, r, IntV(b), KFact(n))
---------------------------------------------------------------------------
\* x (x+1) ... (x+n-1)
Prod(x, n) == Rising(x, n)
\* sum over the factors of |x| / |factor|, no factor being zero
Cond(x, n) == LET step(q) == <<Add(q[1], One), RoundSig(Add(q[2], DivC(One, AbsV(q[1]))), 20)>> IN Times(step, n, <<x, Zero>>)[2]
KProd(x, n) == Add(Int2V(4 ** n), MulC(Add(AbsV(x), Int2V(n)), Cond(x, n)))
Poch(be, r, x, n) ==
  LET p == Prod(x, n)
  IN IF IsZero(p) THEN IsZero(r)
     ELSE Rel(be, r, p, Add(KProd(x, n), IF n \prec 50 THEN Zero ELSE Add(KGam(x), KGam(Add(x, Int2V(n))))))
BinXK(be, r, x, k) ==
  LET y == Add(Sub(x, Int2V(k)), One)
      p == Prod(y, k)
  IN IF IsZero(p) THEN IsZero(r)
     ELSE LET c == Add(KProd(y, k), MulC(Add(AbsV(x), Int2V(k)), Cond(y, k)))
          IN Rel(be, r, DivC(p, FactV(k)), Add(c, IF k \prec 50 THEN Zero ELSE Add(KGam(y), KGam(Add(x, One)))))
\* gamma(a) / (gamma(b) gamma(c)); s: the size of what a, b, c were made from
Quot(be, r, a, b, c, s) ==
  IF \E z \in {1, 2, 3} : LET w == <<a, b, c>>[z] IN Le(PoleDist(w), Shift(Add(s, One), 3 - D)) THEN TRUE          \* a pole up to the last digits
  ELSE LET k(z) == Add(MulC(Add(One, DivC(s, Add(AbsV(z), One))), KGam(z)), DivC(Add(s, One), PoleDist(z)))
           one == MulC(GammaV(b), GammaV(c))
       IN Rel(be, r, DivC(GammaV(a), one), Add(k(a), Add(k(b), k(c))))
C1(z, n) == LET step(q) == <<q[1] + 1, Cut(Add(q[2], DivC(N1(z), N1(CAdd(z, CRe(Int2V(q[1])))))), Wd)>> IN Times(step, n, <<0, Zero>>)[2]
CPoch(be, x, y, n, r1, r2) ==
  LET z == Cx(x, y)
      f == CRising(z, n)
  IN n \succeq 50 \/ IF CIsZero(f) THEN CIsZero(Cx(r1, r2)) ELSE CNear(Cx(r1, r2), f, Mul(N1(f), Add(Int2V(4 ** (n ++ 1)), C1(z, n))), Tol)
AcceptC22(ev) ==
  LET be == ev.be
      r == Obs(ev.r[1])
      n(i) == Dec(ev.a[i].v)
      x(i) == Obs(ev.a[i])
  IN CASE ev.op = "fact" -> Fact(be, r, n(1))
       [] ev.op = "fact2" -> Fact2(be, r, n(1))
       [] ev.op = "binrow" -> Len(ev.r) = n(1) + 1 /\ \A k \in 0..n(1) : Binomial(be, Obs(ev.r[k + 1]), n(1), k)
       [] ev.op = "binnk" -> Binomial(be, r, n(1), n(2))
       [] ev.op = "poch" -> Poch(be, r, x(1), n(2))
       [] ev.op = "binxk" -> BinXK(be, r, x(1), n(2))
       [] ev.op = "binny" -> Quot(be, r, Int2V(n(1) ++ 1), Add(x(2), One), Add(Sub(Int2V(n(1)), x(2)), One), Add(Int2V(n(1)), AbsV(x(2))))
       [] ev.op = "binxy" -> Quot(be, r, Add(x(1), One), Add(x(2), One), Add(Sub(x(1), x(2)), One), Add(AbsV(x(1)), AbsV(x(2))))
       [] ev.op = "pochr" -> Quot(be, r, Add(x(1), x(2)), x(1), One, Add(AbsV(x(1)), AbsV(x(2))))
       [] ev.op = "cpoch" -> CPoch(be, x(1), x(2), n(3), r, Obs(ev.r[2]))
Next == Validate(AcceptC22)
=============================================================================
