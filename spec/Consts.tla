------------------------------- MODULE Consts -------------------------------
(***************************************************************************)
(* The named constants from their definitions, by integer arithmetic at W  *)
(* decimal places, by other algorithms than the library's tables and       *)
(* iterations: series and the Euler-Maclaurin formula.                     *)
(***************************************************************************)
EXTENDS Elem
Sqrt2V == FxV(ISqrt(2 ** S ** S))
PhiV == FxV((S ++ ISqrt(5 ** S ** S)) // 2)
SqrtPiV == FxV(ISqrt(Pi ** S))
ESum == ESer(S)
\* pi/8 ln(2 + sqrt 3) + 3/8 sum 1/((2k+1)^2 binomial(2k,k))
CatSum == LET step(q) == LET k == q[1] IN <<k + 1, (q[2] ** (k + 1)) // (2 * (2 * k + 1)), q[3] ++ (q[2] // ((2 * k + 1) ** (2 * k + 1)))>>
              done(q) == q[2] \doteq 0
          IN Until(step, done, <<0, S, 0>>)[3]
CatFx == (FMul(Pi, LnFx(FxV((2 ** S) ++ ISqrt(3 ** S ** S)))) ++ (3 ** CatSum)) // 8
---------------------------------------------------------------------------
\* zeta(2n) at scale S for n = 1..MZ: pi x cot(pi x) = 1 - 2 sum zeta(2n) x^2n, the quotient of the power series
MZ == W \div 2 + 20
Pi2 == FMul(Pi, Pi)
CosSin == LET step(q) == LET k == Len(q.c)
                             a == 0 -- FMul(q.c[k], Pi2)
                             b == 0 -- FMul(q.s[k], Pi2)
                         IN [c |-> Append(q.c, a // ((2 * k - 1) * (2 * k))), s |-> Append(q.s, b // ((2 * k) * (2 * k + 1)))]
          IN Times(step, MZ, [c |-> <<S>>, s |-> <<S>>])
CotNext(t, cs) == LET n == Len(t)
                      step(q) == <<q[1] + 1, q[2] -- FMul(cs.s[q[1] + 1], t[n + 1 - q[1]])>>
                  IN Times(step, n, <<1, cs.c[n + 1]>>)[2]
CotSer == LET cs == CosSin
              step(t) == Append(t, CotNext(t, cs))
          IN Times(step, MZ, <<S>>)
ZetaEven(n) == 0 -- (CotSer[n + 1] // 2)
\* |B(2n)| / (2n)! at scale S, times (2 pi)^2n = 2 zeta(2n)
---------------------------------------------------------------------------
\* Euler-Maclaurin at M = W: the n-th correction with (2n-j)! / (2 pi M)^2n by recurrence
M == W
TwoPiM == 2 ** M ** Pi
\* gamma = H(M) - ln M - 1/(2M) + sum B(2n) / (2n M^2n),   B(2n)/(2n) = (-1)^(n+1) 2 zeta(2n) (2n-1)! / (2 pi)^2n
Harm == LET step(q) == <<q[1] + 1, q[2] ++ (S // q[1])>> IN Times(step, M, <<1, 0>>)[2]
EMSum(f0, f(_)) ==                     \* sum of (-1)^(n+1) 2 zeta(2n) f(n), f(n+1) = f(n) times the polynomial  f  over (2 pi M)^2
  LET step(q) == LET n == q[1]
                     t == 2 ** FMul(ZetaEven(n), q[2])
                 IN <<n + 1, ((((q[2] ** f(n)) ** S) // TwoPiM) ** S) // TwoPiM, IF n % 2 = 1 THEN q[3] ++ t ELSE q[3] -- t>>
      done(q) == q[1] > MZ \/ BAbs(q[2]) \preceq 1
  IN Until(step, done, <<1, f0, 0>>)[3]
EulerFx == LET f(n) == (2 * n) * (2 * n + 1)
           IN ((Harm -- LnFx(Int2V(M))) -- (S // (2 * M))) ++ EMSum((((S ** S) // TwoPiM) ** S) // TwoPiM, f)
\* ln A = sum k ln k - (M^2/2 + M/2 + 1/12) ln M + M^2/4 - sum over n >= 2 of B(2n) / ((2n-2)(2n-1)2n M^(2n-2))  up to the sign
\* the product of k^k for k <= M
RECURSIVE HProd(_, _)
HProd(a, b) == IF a = b THEN a ^^ a ELSE LET m == (a + b) \div 2 IN HProd(a, m) ** HProd(m + 1, b)
GlaSum ==                              \* n >= 2: B(2n)/((2n)(2n-1)(2n-2)) M^(2-2n) = (-1)^(n+1) 2 zeta(2n) (2n-3)! / ((2 pi)^2n M^(2n-2))
  LET step(q) == LET n == q[1]
                     t == 2 ** FMul(ZetaEven(n), q[2])
                 IN <<n + 1, ((((q[2] ** ((2 * n - 2) * (2 * n - 1))) ** S) // TwoPiM) ** S) // TwoPiM, IF n % 2 = 1 THEN q[3] ++ t ELSE q[3] -- t>>
      done(q) == q[1] > MZ \/ BAbs(q[2]) \preceq 1
      g0 == (((S ** S) // TwoPiM) ** S) // TwoPiM
  IN Until(step, done, <<2, (FMul(g0, g0) ** M) ** M, 0>>)[3]
LnGla == LET m == M
         IN (((LnFx(IntV(HProd(1, m))) -- (((6 * m * m + 6 * m + 1) ** LnFx(Int2V(m))) // 12)) ++ ((m ** m ** S) // 4))) ++ GlaSum
GlaV == ExpV(FxV(LnGla))
---------------------------------------------------------------------------
\* ln 2 ln K = sum (zeta(2n) - sum over k <= KN of k^-2n) A(n) / n - sum over k = 2..KN of ln(1-1/k) ln(1+1/k),  A(n) = 1 - 1/2 + .. + 1/(2n-1)
KN == 10
KPow(q, n) == [k \in 1..KN |-> q[k] // (k * k)]
KSum == LET step(q) == LET n == q.n
                           p == TLCEval([k \in 2..KN |-> q.p[k] // (k * k)])
                           a == (q.a -- (S // (2 * n))) ++ (S // (2 * n + 1))
                           z == ZetaEven(n) -- (S ++ p[2] ++ p[3] ++ p[4] ++ p[5] ++ p[6] ++ p[7] ++ p[8] ++ p[9] ++ p[10])
                       IN [n |-> n + 1, p |-> p, a |-> a, s |-> q.s ++ (FMul(z, q.a) // n)]
        IN Times(step, MZ, [n |-> 1, p |-> [k \in 2..KN |-> S], a |-> S, s |-> 0]).s
KLn == LET step(q) == LET k == q[1] IN <<k + 1, q[2] ++ FMul(LnFx(DivC(Int2V(k - 1), Int2V(k))), LnFx(DivC(Int2V(k + 1), Int2V(k))))>>
       IN Times(step, KN - 1, <<2, 0>>)[2]
KhinV == ExpV(FxV(((KSum -- KLn) ** S) // Ln2))
=============================================================================
