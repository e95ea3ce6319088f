------------------------------- MODULE Special -------------------------------
(***************************************************************************)
(* Bernoulli numbers (by their recurrence, exactly), the gamma function    *)
(* (Stirling's series after a shift, reflection), the zeta function        *)
(* (Borwein's alternating series, reflection), of real and complex         *)
(* arguments.                                                              *)
(***************************************************************************)
EXTENDS Complex, TLC
NB == IF D > 100 THEN 180 ELSE 90
SG == W + 2 * NB                                  \* digits of the powers in Stirling's series
SH == IF D > 100 THEN D + 100 ELSE 100              \* it is used from here on
FA == LET step(s) == Append(s, s[Len(s)] ** Len(s)) IN Times(step, 2 * NB + 4, <<1>>)                  \* FA[i] = (i-1)!
Fac(n) == FA[n + 1]
\* N(n) = B(n) (n+1)!, an integer
BSum(n, s) == LET step(q) == LET j == 2 * (q[1] - 1)
                             IN <<q[1] + 1, q[2] ++ ((Fac(n + 1) // (Fac(j) ** Fac(n + 1 - j))) ** ((Fac(n) // Fac(j + 1)) ** s[q[1]]))>>
              IN Times(step, n \div 2, <<1, 0>>)[2]
BN == LET step(s) == LET n == 2 * Len(s) IN Append(s, ((Fac(n) ** (n + 1)) // 2) -- BSum(n, s)) IN Times(step, NB, <<1>>)                                  \* BN[k+1] = B(2k) (2k+1)!
BernSmall(n) == DivC(IntV(BN[(n // 2) + 1]), IntV(Fac(n + 1)))     \* n even, n <= 2 NB

LnTwoPi == LnFx(Mul(IntV(2), PiV))
---------------------------------------------------------------------------
\* ln gamma(x) for x >= SH, absolute error about x 10^-W
\* the sum of B(2k) / (2k (2k-1) x^(2k-1)) at scale SG; inv = 1/x
StirSum(inv) == LET i2 == (inv ** inv) // P10(SG)
                    step(q) == LET k == q[1] IN <<k + 1, (q[2] ** i2) // P10(SG), q[3] ++ ((q[2] ** BN[k + 1]) // (Fac(2 * k + 1) ** (2 * k * (2 * k - 1))))>>
                    done(q) == q[1] > NB \/ q[2] \doteq 0
                IN Until(step, done, <<1, inv, 0>>)[3]
LnGammaBig(x) ==
  LET inv == ToFx(DivC(One, x), SG)
      l == FxV(LnFx(x))
  IN Add(Sub(Mul(Sub(x, Fin(5, -1)), l), x), FxV((LnTwoPi // 2) ++ (StirSum(inv) // P10(SG - W))))
\* x (x+1) ... (x+n-1)
Rising(x, n) == LET step(q) == <<Add(q[1], One), MulC(q[2], q[1])>> IN Times(step, n, <<x, One>>)[2]
Floor1(x) == FloorI(x)
Shifts(x) == BMax(0, SH -- Floor1(x))
GammaPos(x) == LET n == Shifts(x) IN DivC(ExpV(LnGammaBig(Add(x, Int2V(n)))), Rising(x, n))
IsInt(x) == IsZero(x) \/ Eq(x, Int2V(TruncI(x)))
Nearest(x) == Floor1(Add(x, Fin(5, -1)))
SinPiV(x) == LET n == Nearest(x)
                 s == SinV(MulC(PiV, Sub(x, Int2V(n))))
             IN IF (n %% 2) \doteq 0 THEN s ELSE Neg(s)
CosPiV(x) == SinPiV(Add(x, Fin(5, -1)))
GammaV(x) == IF Sign(x) = 1 THEN GammaPos(x) ELSE DivC(PiV, MulC(SinPiV(x), GammaPos(Sub(One, x))))
\* distance to the poles, as a divisor: zero distance does not occur
PoleDist(x) == IF Le(One, x) THEN One ELSE LET n == BMin(0, Nearest(x)) IN AbsV(Sub(x, Int2V(n)))
\* a bound of the growth of the relative error of gamma(x), not at a pole
KGam(x) == LET a == Add(AbsV(x), One)
               d == PoleDist(x)
           IN Add(Int2V(10), Add(MulC(a, Int2V(3 * BMax(1, Mag(a)))), IF IsZero(d) THEN One ELSE DivC(AbsV(x), d)))
\* n!
RECURSIVE FacProd(_, _)
FacProd(a, b) == IF a = b THEN IntV(a) ELSE IF a > b THEN One ELSE LET m == (a + b) \div 2 IN Mul(FacProd(a, m), FacProd(m + 1, b))
FactV(n) == IF n \prec (2 * NB) THEN IntV(Fac(n)) ELSE IF n \prec 3000 THEN Cut(FacProd(1, n), Wd) ELSE GammaPos(Int2V(n ++ 1))

---------------------------------------------------------------------------
\* complex
BC == LET f(k) == DivC(IntV(BN[k + 1]), IntV(Fac(2 * k + 1) ** (2 * k * (2 * k - 1)))) IN TLCEval([k \in 1..NB |-> f(k)])
CStir(i) == LET i2 == CMulC(i, i)
                step(q) == LET c == BC[q[1]]
                               p == q[2]
                           IN <<q[1] + 1, CMulC(p, i2), Cx(Cut(Add(q[3].x, MulC(p.x, c)), Wd), Cut(Add(q[3].y, MulC(p.y, c)), Wd))>>
            IN Times(step, NB, <<1, i, CZero>>)[3]
CLnGammaBig(z) == LET i == CDivC(COne, z)
                      st == CAdd(CStir(i), CRe(FxV(LnTwoPi // 2)))
                  IN CAdd(CSub(CMul(CSub(z, CRe(Fin(5, -1))), CLog(z)), z), st)
CRising(z, n) == LET step(q) == <<Cx(Add(q[1].x, One), z.y), CMulC(q[2], q[1])>> IN Times(step, n, <<z, COne>>)[2]
CGammaPos(z) == LET n == Shifts(z.x) IN CDivC(CExp(CCut(CLnGammaBig(Cx(Add(z.x, Int2V(n)), z.y)))), CRising(z, n))
CSinPi(z) == LET n == Nearest(z.x)
                 s == CSin(Cx(MulC(PiV, Sub(z.x, Int2V(n))), MulC(PiV, z.y)))
             IN IF (n %% 2) \doteq 0 THEN s ELSE CNeg(s)
CGamma(z) == IF Sign(z.x) = 1 THEN CGammaPos(z) ELSE CDivC(CRe(PiV), CMulC(CSinPi(z), CGammaPos(CSub(COne, z))))

---------------------------------------------------------------------------
\* zeta for real s >= 1/2 (Borwein, algorithm 2)
ZN == 200
\* q[2]: the i-th summand n (n+i-1)! 4^i / ((n-i)! (2i)!)
ZD == LET step(q) == LET i == q[1]
                         t == (q[2] ** (4 * (ZN + i) * (ZN - i))) // ((2 * i + 1) * (2 * i + 2))
                     IN <<i + 1, t, Append(q[3], q[3][Len(q[3])] ++ t)>>
      IN Times(step, ZN, <<0, 1, <<1>>>>)[3]                              \* ZD[k+1] = d(k)
SPF == TLCEval([j \in 1..ZN |-> IF j = 1 THEN 1 ELSE CHOOSE p \in 2..j : j % p = 0 /\ \A q \in 2..(p - 1) : j % q # 0])
LNJ == TLCEval([j \in 1..ZN |-> IF SPF[j] = j /\ j > 1 THEN LnV(IntV(j)) ELSE Zero])
\* j^-s at scale S
PowSeq(s) == LET step(q) == LET j == Len(q) + 1
                                p == SPF[j]
                            IN Append(q, IF p = j THEN ToFx(ExpV(Cut(Neg(Mul(s, LNJ[j])), Wd)), W) ELSE FMul(q[p], q[j \div p]))
             IN Times(step, ZN - 1, <<S>>)
ZSum(p) == LET step(q) == LET k == q[1]
                              t == (ZD[ZN + 1] -- ZD[k + 1]) ** p[k + 1]
                          IN <<k + 1, IF k % 2 = 0 THEN q[2] ++ t ELSE q[2] -- t>>
           IN Times(step, ZN, <<0, 0>>)[2]
OneMinusExp(y) == IF Mag(y) \prec (0 - Tiny) THEN LET y2 == MulC(y, y) IN Neg(Cut(Add(y, Add(Half(y2), DivC(MulC(y2, y), IntV(6)))), Wd)) ELSE Sub(One, ExpV(y))
ZetaRight(s) == IF Mag(s) \succ 4 THEN One
                ELSE DivC(FxV(ZSum(PowSeq(s)) // ZD[ZN + 1]), OneMinusExp(Cut(Mul(Sub(One, s), Ln2V), Wd)))
\* 2^s pi^(s-1) gamma(1-s) zeta(1-s): the factor of sin(pi s/2)
ZetaRefl(s) == LET r == Sub(One, s)
                   e == ExpV(Cut(Sub(Mul(s, FxV(LnTwoPi)), FxV(LnFx(PiV))), Wd))
               IN MulC(e, MulC(GammaPos(r), ZetaRight(r)))
ZetaV(s) == IF Le(Fin(5, -1), s) THEN ZetaRight(s) ELSE MulC(ZetaRefl(s), SinPiV(Half(s)))

\* complex s with real part at least 1/2 and moderate imaginary part
CPowSeq(s) == LET step(q) == LET j == Len(q) + 1
                                 p == SPF[j]
                             IN Append(q, IF p = j THEN CExp(Cx(Cut(Neg(Mul(s.x, LNJ[j])), Wd), Cut(Neg(Mul(s.y, LNJ[j])), Wd))) ELSE CMulC(q[p], q[j \div p]))
              IN Times(step, ZN - 1, <<COne>>)
CZSum(p) == LET step(q) == LET k == q[1]
                               d == IntV(ZD[ZN + 1] -- ZD[k + 1])
                               t == Cx(Mul(d, p[k + 1].x), Mul(d, p[k + 1].y))
                           IN <<k + 1, CCut(IF k % 2 = 0 THEN CAdd(q[2], t) ELSE CSub(q[2], t))>>
            IN Times(step, ZN, <<0, CZero>>)[2]
CZetaRight(s) == LET e == CSub(COne, s)
                     y == CExp(Cx(Cut(Mul(e.x, Ln2V), Wd), Cut(Mul(e.y, Ln2V), Wd)))
                     z == CZSum(CPowSeq(s))
                     dn == IntV(ZD[ZN + 1])
                 IN CDivC(Cx(DivC(z.x, dn), DivC(z.y, dn)), CSub(COne, y))
CZetaFac(s) == LET l == FxV(LnTwoPi) IN CExp(Cx(Cut(Sub(Mul(s.x, l), FxV(LnFx(PiV))), Wd), Cut(Mul(s.y, l), Wd)))
CZeta(s) == IF Le(Fin(-5, -1), s.x) THEN          \* the series converges there, too
               CZetaRight(s)
            ELSE LET r == CSub(COne, s) IN CMulC(CMulC(CZetaFac(s), CSinPi(CHalf(s))), CMulC(CGamma(r), CZetaRight(r)))
\* size of the smooth factors
CZetaSize(s) == IF Le(Fin(-5, -1), s.x) THEN Add(One, N1(s))
                ELSE LET r == CSub(COne, s) IN MulC(N1(CZetaFac(s)), MulC(N1(CGamma(r)), CoshV(Cut(Mul(Half(PiV), s.y), Wd))))
---------------------------------------------------------------------------
\* the defining series, for n large
ZDir(n) == LET term(k) == DivC(One, PowC(IntV(k), n))
               step(q) == <<q[1] + 1, term(q[1] + 1), Add(q[3], q[2])>>
               done(q) == Mag(q[2]) \prec (0 -- (D + 60))
           IN Until(step, done, <<2, term(2), One>>)[3]
ZetaInt(n) == IF n \prec 100 THEN ZetaRight(Int2V(n)) ELSE Cut(ZDir(n), Wd)
\* Bernoulli numbers of any index
BernV(n) == IF n \doteq 0 THEN One ELSE IF n \doteq 1 THEN Fin(-5, -1) ELSE IF ((n %% 2) \doteq 1) THEN Zero
            ELSE IF n \preceq (2 * NB) THEN BernSmall(n)
            ELSE LET v == DivC(Mul(IntV(2), MulC(FactV(n), ZetaInt(n))), PowC(Cut(Mul(IntV(2), PiV), Wd), n))
                 IN IF (n %% 4) \doteq 0 THEN Neg(v) ELSE v
=============================================================================
