-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* The elementary functions, evaluated by exact integer arithmetic at a    *)
(* fixed point of W decimal places: about a hundred places more than the   *)
(* type advertises.  Everything follows from the defining series (exp,     *)
(* sin, cos, atan, atanh) and the functional equations.  The operators     *)
(* ending in V return a value whose relative error is below 10^-(D+25).    *)
(***************************************************************************)
EXTENDS EFloatOps, Config, Iterate
D == CfgDigits
W == CfgDigits + 99
S == P10(W)
Tiny == 60           \* below 10^-Tiny two terms of the power series are enough at 101 digits
FMul(a, b) == (a ** b) // S

\* x as an integer multiple of 10^-w
ToFx(x, w) == IF IsZero(x) THEN 0
              ELSE LET k == x.e ++ w
                   IN IF k \succeq 0 THEN x.m ** P10(k)
                      ELSE IF (Mag(x) ++ w) \prec (0 - 1) THEN 0
                      ELSE BSgn(x.m) ** (BAbs(x.m) // P10(0 -- k))
FxV(n) == Fin(n, 0 - W)
\* value cut to n digits
Cut(x, n) == IF IsZero(x) THEN x ELSE IF NDig(x.m) <= n THEN x ELSE RoundSig(x, n)
Wd == W + 10
MulC(x, y) == Cut(Mul(x, y), Wd)
DivC(x, y) == IF IsZero(x) THEN x
              ELSE LET k == BMax(0, (Wd ++ NDig(y.m)) -- NDig(x.m))
                   IN Fin((BSgn(x.m) * BSgn(y.m)) ** ((BAbs(x.m) ** P10(k)) // BAbs(y.m)), (x.e -- y.e) -- k)
SqrtC(x) == IF IsZero(x) THEN x
            ELSE LET k0 == BMax(0, (2 * Wd) -- NDig(x.m))
                     k == IF ((x.e -- k0) %% 2) \doteq 0 THEN k0 ELSE k0 ++ 1
                 IN Fin(ISqrt(x.m ** P10(k)), (x.e -- k) // 2)
RECURSIVE PowC(_, _)
\* x^n, n >= 0, with relative error below n 10^-Wd
PowC(x, n) == IF n \doteq 0 THEN One
              ELSE LET h == PowC(x, n // 2)
                       q == MulC(h, h)
                   IN IF (n %% 2) \doteq 0 THEN q ELSE MulC(q, x)
Half(x) == Mul(x, Fin(5, -1))
IntV(n) == Int2V(n)

---------------------------------------------------------------------------
\* atan(1/n) at scale s
AtanInv(n, s) == LET step(q) == <<q[1] // (n * n), q[2] + 2, 0 - q[3], q[4] ++ (q[3] ** (q[1] // q[2]))>>
                     done(q) == q[1] \doteq 0
                 IN Until(step, done, <<s // n, 1, 1, 0>>)[4]
\* pi (Machin) and ln 10 = 2 atanh(..) (4 ln 5/4 .. by  ln2 = 18 L26 - 2 L4801 + 8 L8749,  ln 10 = 46 L31 + 34 L49 + 20 L161  with L_n = 2 atanh(1/n)/2)
AtanhInv(n, s) == LET step(q) == <<q[1] // (n * n), q[2] + 2, q[3] ++ (q[1] // q[2])>>
                      done(q) == q[1] \doteq 0
                  IN Until(step, done, <<s // n, 1, 0>>)[3]
Xp == W + 90                      \* constants carry 90 places more, for the argument reduction
SX == P10(Xp)
Sg == P10(Xp + 10)
PiX == ((16 ** AtanInv(5, Sg)) -- (4 ** AtanInv(239, Sg))) // P10(10)
Ln10X == ((46 ** AtanhInv(31, Sg)) ++ (34 ** AtanhInv(49, Sg)) ++ (20 ** AtanhInv(161, Sg))) // P10(10)
Ln2X == ((14 ** AtanhInv(31, Sg)) ++ (10 ** AtanhInv(49, Sg)) ++ (6 ** AtanhInv(161, Sg))) // P10(10)
Pi == PiX // P10(90)
Ln10 == Ln10X // P10(90)
Ln2 == Ln2X // P10(90)
PiV == FxV(Pi)
PiHalfV == Half(PiV)
Ln10V == FxV(Ln10)
Ln2V == FxV(Ln2)

---------------------------------------------------------------------------
\* 1 + r + r^2/2 + ...
ESer(r) == LET step(q) == LET u == ((q[2] ** r) // S) // q[1] IN <<q[1] + 1, u, q[3] ++ u>>
               done(q) == BAbs(q[2]) \preceq 1
           IN Until(step, done, <<1, S, S>>)[3]
Sqr(a, k) == LET step(q) == (q ** q) // S IN Times(step, k, a)
\* e^x for |x| < 10^11
ExpV(x) ==
  IF IsZero(x) THEN One
  ELSE IF Mag(x) \prec (0 - W) THEN One
  ELSE LET X == ToFx(x, Xp)
           K == X // Ln10X
           r == (X -- (K ** Ln10X)) // P10(90)
       IN Fin(Sqr(ESer(r // 4096), 12), K -- W)

\* t + t^3/3 + t^5/5 ..  (all: TRUE)  or  t - t^3/3 + ..
ThSer(t, all) == LET t2 == (t ** t) // S
                     step(q) == <<q[1] + 2, (q[2] ** t2) // S, IF all \/ q[1] % 4 = 1 THEN q[3] ++ (q[2] // q[1]) ELSE q[3] -- (q[2] // q[1])>>
                     done(q) == q[2] \doteq 0
                 IN Until(step, done, <<1, t, 0>>)[3]
Roots(a, k) == LET step(q) == ISqrt(q ** S) IN Times(step, k, a)
\* ln x at scale S, x > 0
LnFx(x) ==
  LET y == RoundSig(x, W + 1)
      E == Mag(y) -- 1
      m == Roots(y.m, 8)
      t == ((m -- S) ** S) // (m ++ S)
      a == ThSer(t, TRUE)
  IN (512 ** a) ++ ((E ** Ln10X) // P10(90))
LnV(x) == FxV(LnFx(x))
\* relative accuracy next to one
Ln1pV(x) == IF IsZero(x) THEN x
            ELSE IF Mag(x) \prec (0 - Tiny)
            THEN LET q == MulC(x, x) IN Cut(Add(Sub(x, Half(q)), DivC(MulC(q, x), IntV(3))), Wd)
            ELSE LnV(Add(One, x))

---------------------------------------------------------------------------
\* t - t r2/((k+1)(k+2)) + ...
SSer(r2, k, t) == LET step(q) == LET u == 0 -- (((q[2] ** r2) // S) // ((q[1] + 1) * (q[1] + 2))) IN <<q[1] + 2, u, q[3] ++ u>>
                      done(q) == BAbs(q[2]) \preceq 1
                  IN Until(step, done, <<k, t, t>>)[3]
SinFx(r) == SSer((r ** r) // S, 1, r)
CosFx(r) == SSer((r ** r) // S, 0, S)
\* <<sin x, cos x>> at scale S, |x| < 10^75
SinCos(x) ==
  LET X == ToFx(x, Xp)
      n == ((4 ** X) ++ PiX) // (2 ** PiX)
      r == (X -- ((n ** PiX) // 2)) // P10(90)
      q == n %% 4
      s == SinFx(r)
      c == CosFx(r)
  IN CASE q = 0 -> <<s, c>> [] q = 1 -> <<c, 0 -- s>> [] q = 2 -> <<0 -- s, 0 -- c>> [] q = 3 -> <<0 -- c, s>>
SinV(x) == IF IsZero(x) THEN Zero
           ELSE IF Mag(x) \prec (0 - Tiny) THEN Sub(x, DivC(MulC(x, MulC(x, x)), IntV(6)))
           ELSE FxV(SinCos(x)[1])
CosV(x) == IF IsZero(x) THEN One ELSE FxV(SinCos(x)[2])

Halv(t, k) == LET step(q) == (q ** S) // (S ++ ISqrt((S ** S) ++ (q ** q))) IN Times(step, k, t)
\* atan t at scale S, t >= 0
AtanFx(t) == IF t \succ S THEN (Pi // 2) -- (32 ** ThSer(Halv((S ** S) // t, 5), FALSE))
             ELSE 32 ** ThSer(Halv(t, 5), FALSE)
AtanPos(x) == IF Mag(x) \prec (0 - Tiny) THEN Sub(x, DivC(MulC(x, MulC(x, x)), IntV(3)))
              ELSE IF Mag(x) \succ (2 * W) THEN PiHalfV
              ELSE FxV(AtanFx(ToFx(x, W)))
AtanV(x) == IF IsZero(x) THEN Zero ELSE IF Sign(x) = 1 THEN AtanPos(x) ELSE Neg(AtanPos(AbsV(x)))
\* angle of the point (x, y), not the origin, in (-pi, pi]
Atan2V(y, x) == IF IsZero(x) THEN (IF Sign(y) = 1 THEN PiHalfV ELSE Neg(PiHalfV))
                ELSE IF IsZero(y) THEN (IF Sign(x) = 1 THEN Zero ELSE PiV)
                ELSE LET a == AtanPos(DivC(AbsV(y), AbsV(x)))
                         b == IF Sign(x) = 1 THEN a ELSE Sub(PiV, a)
                     IN IF Sign(y) = 1 THEN b ELSE Neg(b)
\* sqrt(1 - x^2), |x| <= 1
CoV(x) == SqrtC(Sub(One, Mul(x, x)))
AsinV(x) == IF IsZero(x) THEN Zero ELSE IF Mag(x) \prec (0 - Tiny) THEN Add(x, DivC(MulC(x, MulC(x, x)), IntV(6))) ELSE Atan2V(x, CoV(x))
AcosV(x) == Atan2V(CoV(x), x)

---------------------------------------------------------------------------
SinhV(x) == IF IsZero(x) THEN Zero
            ELSE IF Mag(x) \prec (0 - Tiny) THEN Add(x, DivC(MulC(x, MulC(x, x)), IntV(6)))
            ELSE LET e == ExpV(AbsV(x))
                     s == Half(Sub(e, DivC(One, e)))
                 IN IF Sign(x) = 1 THEN s ELSE Neg(s)
CoshV(x) == IF IsZero(x) THEN One ELSE LET e == ExpV(AbsV(x)) IN Half(Add(e, DivC(One, e)))
TanhV(x) == IF IsZero(x) THEN Zero
            ELSE IF Mag(x) \succ 5 THEN IntV(Sign(x))
            ELSE IF Mag(x) \prec (0 - Tiny) THEN Sub(x, DivC(MulC(x, MulC(x, x)), IntV(3)))
            ELSE DivC(SinhV(x), CoshV(x))
AsinhV(x) == IF IsZero(x) THEN Zero
             ELSE IF Mag(x) \prec (0 - Tiny) THEN Sub(x, DivC(MulC(x, MulC(x, x)), IntV(6)))
             ELSE LET y == AbsV(x)
                      l == IF Mag(x) \succ 1000 THEN LnV(Mul(IntV(2), y)) ELSE LnV(Add(y, SqrtC(Add(Mul(y, y), One))))
                  IN IF Sign(x) = 1 THEN l ELSE Neg(l)
AcoshV(x) == IF Mag(x) \succ 1000 THEN LnV(Mul(IntV(2), x)) ELSE LnV(Add(x, SqrtC(Sub(Mul(x, x), One))))
AtanhV(x) == IF IsZero(x) THEN Zero
             ELSE IF Mag(x) \prec (0 - Tiny) THEN Add(x, DivC(MulC(x, MulC(x, x)), IntV(3)))
             ELSE Half(LnV(DivC(Add(One, x), Sub(One, x))))

---------------------------------------------------------------------------
\* r is f(x) up to 10^-d of |f| and of  c = |x f'(x)|: the effect of changing x in its last digit.
\* Where that effect exceeds |f| itself (next to a pole) the function may have any value.
Near(be, r, f, c, d) ==
  LET s == Add(AbsV(f), AbsV(c))
  IN \/ IsFinite(r) /\ Within(r, f, Shift(s, 0 - d))
     \/ Result(be, r, f, s, d)
     \/ ~IsNaN(r) /\ ~IsZero(f) /\ Le(Mul(AbsV(f), Fin(1, d)), s)
=============================================================================
