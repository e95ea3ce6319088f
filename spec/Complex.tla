------------------------------- MODULE Complex -------------------------------
(***************************************************************************)
(* Complex numbers with exact decimal parts: arithmetic, and the principal *)
(* values of the elementary functions in terms of the real ones of Elem    *)
(* (Kahan's formulas for the inverse functions).                           *)
(***************************************************************************)
EXTENDS Elem
Cx(x, y) == [x |-> x, y |-> y]
CZero == Cx(Zero, Zero)
COne == Cx(One, Zero)
CI == Cx(Zero, One)
CRe(x) == Cx(x, Zero)
CIsZero(z) == IsZero(z.x) /\ IsZero(z.y)
CFinite(z) == IsFinite(z.x) /\ IsFinite(z.y)
CNeg(z) == Cx(Neg(z.x), Neg(z.y))
CConj(z) == Cx(z.x, Neg(z.y))
CAdd(u, v) == Cx(Add(u.x, v.x), Add(u.y, v.y))
CSub(u, v) == Cx(Sub(u.x, v.x), Sub(u.y, v.y))
CMul(u, v) == Cx(Sub(Mul(u.x, v.x), Mul(u.y, v.y)), Add(Mul(u.x, v.y), Mul(u.y, v.x)))
CCut(z) == Cx(Cut(z.x, Wd), Cut(z.y, Wd))
CMulC(u, v) == CCut(CMul(u, v))
Norm(z) == Add(Mul(z.x, z.x), Mul(z.y, z.y))
N1(z) == Add(AbsV(z.x), AbsV(z.y))          \* |z| <= N1(z) <= 1.5 |z|
CDivC(u, v) == LET n == Norm(v)
                   p == CMul(u, CConj(v))
               IN Cx(DivC(p.x, n), DivC(p.y, n))
CHalf(z) == Cx(Half(z.x), Half(z.y))
MulI(z) == Cx(Neg(z.y), z.x)                \* i z
DivI(z) == Cx(z.y, Neg(z.x))                \* -i z
RECURSIVE CPowC(_, _)
CPowC(z, n) == IF n \doteq 0 THEN COne
               ELSE LET h == CPowC(z, n // 2)
                        q == CMulC(h, h)
                    IN IF (n %% 2) \doteq 0 THEN q ELSE CMulC(q, z)
AbsC(z) == SqrtC(Norm(z))
\* principal square root; each part to full relative accuracy
CSqrt(z) == IF CIsZero(z) THEN CZero
            ELSE LET s == SqrtC(Half(Add(AbsV(z.x), AbsC(z))))
                     t == DivC(Half(AbsV(z.y)), s)
                 IN IF Sign(z.x) >= 0 THEN Cx(s, IF Sign(z.y) = -1 THEN Neg(t) ELSE t)
                    ELSE Cx(t, IF Sign(z.y) = -1 THEN Neg(s) ELSE s)
CExp(z) == LET e == ExpV(z.x) IN Cx(MulC(e, CosV(z.y)), MulC(e, SinV(z.y)))
\* ln |z| also next to one
LnAbs(z) == LET n == Norm(z)
                d == Sub(n, One)
            IN Half(IF IsZero(d) THEN Zero ELSE IF Mag(d) \prec (0 - 1) THEN Ln1pV(d) ELSE LnV(n))
CLog(z) == Cx(LnAbs(z), Atan2V(z.y, z.x))
CSin(z) == Cx(MulC(SinV(z.x), CoshV(z.y)), MulC(CosV(z.x), SinhV(z.y)))
CCos(z) == Cx(MulC(CosV(z.x), CoshV(z.y)), Neg(MulC(SinV(z.x), SinhV(z.y))))
CSinh(z) == DivI(CSin(MulI(z)))
CCosh(z) == CCos(MulI(z))
CTan(z) == CDivC(CSin(z), CCos(z))
CTanh(z) == DivI(CTan(MulI(z)))
At2(y, x) == IF IsZero(y) /\ IsZero(x) THEN Zero ELSE Atan2V(y, x)
CAsin(z) == LET a == CSqrt(CSub(COne, z))
                b == CSqrt(CAdd(COne, z))
            IN Cx(At2(z.x, CMul(a, b).x), AsinhV(Cut(CMul(CConj(a), b).y, Wd)))
CAcos(z) == LET a == CSqrt(CSub(COne, z))
                b == CSqrt(CAdd(COne, z))
            IN Cx(Mul(IntV(2), At2(a.x, b.x)), AsinhV(Cut(CMul(CConj(b), a).y, Wd)))
CAcosh(z) == LET a == CSqrt(CSub(z, COne))
                 b == CSqrt(CAdd(z, COne))
             IN Cx(AsinhV(Cut(CMul(CConj(a), b).x, Wd)), Mul(IntV(2), At2(a.y, b.x)))
CAsinh(z) == DivI(CAsin(MulI(z)))
CAtanh(z) == LET p == Add(One, z.x)
                 m == Sub(One, z.x)
                 q == Mul(z.y, z.y)
                 d == Sub(Mul(p, p), Mul(m, m))       \* 4x, the difference of the two norms
                 nm == Add(Mul(m, m), q)
             IN Cx(Half(Half(Ln1pV(DivC(d, nm)))), Half(At2(Mul(IntV(2), z.y), Sub(Mul(p, m), q))))
CAtan(z) == DivI(CAtanh(MulI(z)))
---------------------------------------------------------------------------
\* every part of r within 10^-d s of f
CNear(r, f, s, d) == CFinite(r) /\ Within(r.x, f.x, Shift(s, 0 - d)) /\ Within(r.y, f.y, Shift(s, 0 - d))
ObsC(s, k) == Cx(Obs(s[k]), Obs(s[k + 1]))
=============================================================================
