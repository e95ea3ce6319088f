---------------------------- MODULE EFloatValue ----------------------------
(***************************************************************************)
(* The value domain of the number type, as a user can observe it, and      *)
(* exact arithmetic on it.                                                 *)
(*                                                                         *)
(* A value is NaN, an infinity with a sign, the one zero, or a finite      *)
(* non-zero decimal  m * 10^e  with integers m # 0 and e.  Integers are    *)
(* unbounded (module BigInt).                                              *)
(***************************************************************************)
EXTENDS BigInt, Integers, Sequences, TLC

NaN      == [k |-> "n"]
Inf(s)   == [k |-> "i", s |-> s]                 \* s = 1: negative
ZeroS(s) == [k |-> "z", s |-> s]                 \* s = 1: a negative zero (mpfr only)
Zero     == ZeroS(0)
Fin(m, e) == IF m \doteq 0 THEN Zero ELSE [k |-> "f", m |-> m, e |-> e]
Int2V(n) == Fin(n, 0)

IsNaN(x)  == x.k = "n"
IsInf(x)  == x.k = "i"
IsZero(x) == x.k = "z"
IsFin(x)  == x.k = "f"                            \* finite and not zero
IsFinite(x) == x.k \in {"f", "z"}

\* sign: -1, 0, 1   (of a value that is not NaN)
Sign(x) == CASE x.k = "z" -> 0
             [] x.k = "i" -> (IF x.s = 1 THEN -1 ELSE 1)
             [] x.k = "f" -> BSgn(x.m)
             [] x.k = "n" -> 0
NegBit(x) == IF Sign(x) = -1 THEN 1 ELSE 0

Neg(x) == CASE x.k = "f" -> [x EXCEPT !.m = 0 -- x.m]
            [] x.k = "i" -> Inf(1 - x.s)
            [] OTHER -> x
AbsV(x) == CASE x.k = "f" -> [x EXCEPT !.m = BAbs(x.m)]
             [] x.k = "i" -> Inf(0)
             [] OTHER -> x

\* The number of digits in front of the decimal point: 10^(Mag-1) <= |x| < 10^Mag
Mag(x) == NDig(x.m) ++ x.e

---------------------------------------------------------------------------
(* Observation.  The recorder writes a finite value as one or two decimal  *)
(* parts whose exact sum is the value.                                     *)
Far == 3000      \* parts further apart than this many digits do not interact
AddFin(x, y) ==  \* exact sum of two finite non-zero values (see Far)
  LET mx == Mag(x)
      my == Mag(y)
  IN IF mx \succ (my ++ Far) /\ x.e \succ (my ++ Far) THEN x
     ELSE IF my \succ (mx ++ Far) /\ y.e \succ (mx ++ Far) THEN y
     ELSE LET e == BMin(x.e, y.e)
          IN Fin((x.m ** P10(x.e -- e)) ++ (y.m ** P10(y.e -- e)), e)

Obs(j) == CASE j.k = "n" -> NaN
            [] j.k = "i" -> Inf(j.s)
            [] j.k = "z" -> ZeroS(IF "s" \in DOMAIN j THEN j.s ELSE 0)
            [] j.k = "f" -> IF "m2" \in DOMAIN j
                            THEN AddFin(Fin(Dec(j.m), Dec(j.e)), Fin(Dec(j.m2), Dec(j.e2)))
                            ELSE Fin(Dec(j.m), Dec(j.e))
            \* a binary floating-point number (-1)^s * m * 2^e, exactly
            [] j.k = "2" -> LET m == IF j.s = 1 THEN 0 -- Dec(j.m) ELSE Dec(j.m)
                                e == Dec(j.e)
                            IN IF e \succeq 0 THEN Fin(m ** (2 ^^ e), 0) ELSE Fin(m ** (5 ^^ (0 -- e)), e)
            \* a built-in integer
            [] j.k = "N" -> Int2V(Dec(j.v))

---------------------------------------------------------------------------
(* Exact operations on finite values (zero included).                      *)
Add(x, y) == IF IsZero(x) THEN y ELSE IF IsZero(y) THEN x ELSE AddFin(x, y)
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF IsZero(x) \/ IsZero(y) THEN Zero ELSE Fin(x.m ** y.m, x.e ++ y.e)
\* x * 10^k
Shift(x, k) == IF IsZero(x) THEN x ELSE [x EXCEPT !.e = x.e ++ k]
RECURSIVE PowV(_, _)
PowV(x, n) == IF IsZero(x) THEN (IF n = 0 THEN Int2V(1) ELSE Zero) ELSE Fin(x.m ^^ n, x.e ** n)

\* three-way comparison of values other than NaN
CmpFin(x, y) ==   \* both finite, non-zero
  IF BSgn(x.m) # BSgn(y.m) THEN BSgn(x.m)
  ELSE LET mx == Mag(x)
           my == Mag(y)
       IN IF mx \succ my THEN BSgn(x.m)
          ELSE IF mx \prec my THEN 0 - BSgn(x.m)
          ELSE LET e == BMin(x.e, y.e)
               IN BSgn((x.m ** P10(x.e -- e)) -- (y.m ** P10(y.e -- e)))
Rank(x) == CASE x.k = "i" -> (IF x.s = 1 THEN -2 ELSE 2)
             [] OTHER -> Sign(x)
Cmp(x, y) == IF IsFin(x) /\ IsFin(y) THEN CmpFin(x, y)
             ELSE IF Rank(x) < Rank(y) THEN -1 ELSE IF Rank(x) > Rank(y) THEN 1 ELSE 0
Lt(x, y) == Cmp(x, y) < 0
Le(x, y) == Cmp(x, y) <= 0
Eq(x, y) == Cmp(x, y) = 0

\* |x| <= 10^k  for finite x
AtMost10(x, k) == IsZero(x) \/ Cmp(AbsV(x), Fin(1, k)) <= 0

\* |r - x| <= 10^-d |x|      relative closeness, r and x finite
Close(r, x, d) ==
  IF IsZero(x) THEN IsZero(r)
  ELSE IF ~IsFin(r) THEN FALSE
  ELSE IF BSgn(r.m) # BSgn(x.m) THEN FALSE
  ELSE IF BAbs(Mag(r) -- Mag(x)) \succ 1 THEN FALSE
  ELSE LET y == Sub(r, x) IN IsZero(y) \/ Le(Shift(AbsV(y), d), AbsV(x))
\* |r - x| <= 10^-d |y|
CloseTo(r, x, y, d) == LET z == Sub(r, x) IN IsZero(z) \/ (~IsZero(y) /\ Le(Shift(AbsV(z), d), AbsV(y)))
\* |r - x| <= b   for b > 0 or b = 0
Within(r, x, b) == Le(AbsV(Sub(r, x)), b)

\* r is the quotient x / y to relative accuracy 10^-d    (y # 0)
CloseQuot(r, x, y, d) ==
  IF IsZero(x) THEN IsZero(r)
  ELSE IsFin(r) /\ LET p == Mul(r, y) IN Close(p, x, d)

\* integer part (towards zero) of a finite value, as an integer; |x| < 10^5000
TruncI(x) == IF IsZero(x) THEN 0
             ELSE IF x.e \succeq 0 THEN x.m ** P10(x.e)
             ELSE IF Mag(x) \preceq 0 THEN 0
             ELSE BSgn(x.m) ** (BAbs(x.m) // P10(0 -- x.e))
FloorI(x) == LET t == TruncI(x) IN IF Lt(x, Int2V(t)) THEN t -- 1 ELSE t
IsIntegral(x) == IsZero(x) \/ x.e \succeq 0 \/ ((0 -- x.e) \prec Mag(x) ++ NDig(x.m) /\ (BAbs(x.m) %% P10(0 -- x.e)) \doteq 0)
\* e such that the last non-zero digit of x has weight 10^e
RECURSIVE Strip(_, _)
Strip(m, e) == IF (m %% P10(16)) \doteq 0 THEN Strip(m // P10(16), e ++ 16)
               ELSE IF (m %% 10) \doteq 0 THEN Strip(m // 10, e ++ 1) ELSE e
LowExp(x) == Strip(BAbs(x.m), x.e)
\* number of significant digits
SigDigits(x) == IF IsZero(x) THEN 0 ELSE Mag(x) -- LowExp(x)

\* x rounded (half away from zero) to n >= 1 significant digits: integer mantissa with n digits and exponent
RoundSig(x, n) ==
  LET d == NDig(x.m)
      a == BAbs(x.m)
      q == IF d <= n THEN a ** P10(n - d) ELSE ((a ** 2) ++ P10(d - n)) // (2 ** P10(d - n))
      e == IF d <= n THEN x.e -- (n - d) ELSE x.e ++ (d - n)
  IN IF NDig(q) > n THEN Fin(BSgn(x.m) ** (q // 10), e ++ 1) ELSE Fin(BSgn(x.m) ** q, e)

Pick(h, n) == h %% n
PickSeq(h, s) == s[1 + (h %% Len(s))]
=============================================================================
