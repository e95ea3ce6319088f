----------------------------- MODULE EFloatOps -----------------------------
(***************************************************************************)
(* What each arithmetic operation of the number type may return.           *)
(* d is the number of advertised decimal digits.                           *)
(***************************************************************************)
EXTENDS EFloatValue

(* The exponent range.  Magnitudes below 10^hf (at or above 10^lf) must be   *)
(* represented, magnitudes from 10^hi on (below 10^lo) must saturate; the   *)
(* native back end has one limit, the binary ones may do either between     *)
(* their advertised limit and the limit of their engine.                    *)
Lim(be) == CASE be = "efx"  -> [hf |-> Dec("2147483617"), hi |-> Dec("2147483617"), lf |-> Dec("-2147483616"), lo |-> Dec("-2147483616")]
             [] be = "gmp"  -> [hf |-> 646392567,  hi |-> 646456996, lf |-> -646392568, lo |-> -646456996]
             [] be = "mpfr" -> [hf |-> 323196287,  hi |-> 323228498, lf |-> -323196288, lo |-> -323228498]

Binary(be) == be # "efx"

\* |x| against 10^k |y| up to one part in 10^99:  clearly below / clearly not below
Slack == 99
ClearlyBelow(x, y, k) == Lt(AbsV(x), Mul(AbsV(y), Fin(P10(Slack) -- 1, k -- Slack)))
ClearlyAbove(x, y, k) == Lt(Mul(AbsV(y), Fin(P10(Slack) ++ 1, k -- Slack)), AbsV(x))
One == Int2V(1)
\* r is an admissible result where the exact result is the quotient x/y (finite, not zero);
\* close: r is accurate
Saturate(be, r, x, y, neg, close) ==
  LET l == Lim(be)
  IN CASE IsFin(r)  -> ~ClearlyAbove(x, y, l.hi) /\ ~ClearlyBelow(x, y, l.lo) /\ close
       [] IsInf(r)  -> ~ClearlyBelow(x, y, l.hf) /\ r.s = neg
       [] IsZero(r) -> ~ClearlyAbove(x, y, l.lf)
       [] OTHER -> FALSE
\* r may be the result where the exact result is the finite value x, accuracy 10^-d relative to |scale|
Result(be, r, x, scale, d) ==
  IF IsZero(x) THEN IsZero(r) \/ (IsFin(r) /\ CloseTo(r, x, scale, d))
  ELSE Saturate(be, r, x, One, NegBit(x), IsFin(r) /\ CloseTo(r, x, scale, d))

MaxAbs(x, y) == IF IsZero(x) THEN AbsV(y) ELSE IF IsZero(y) THEN AbsV(x)
                ELSE IF Lt(AbsV(x), AbsV(y)) THEN AbsV(y) ELSE AbsV(x)

---------------------------------------------------------------------------
\* special operands
AddSpecial(x, y) == CASE IsNaN(x) \/ IsNaN(y) -> NaN
                      [] IsInf(x) /\ IsInf(y) -> IF x.s = y.s THEN x ELSE NaN
                      [] IsInf(x) -> x
                      [] IsInf(y) -> y
XorSign(x, y) == IF NegBit(x) = NegBit(y) THEN 0 ELSE 1
MulSpecial(x, y) == CASE IsNaN(x) \/ IsNaN(y) -> NaN
                      [] IsInf(x) \/ IsInf(y) -> IF IsZero(x) \/ IsZero(y) THEN NaN ELSE Inf(XorSign(x, y))
DivSpecial(x, y) == CASE IsNaN(x) \/ IsNaN(y) -> NaN
                      [] IsInf(x) /\ IsInf(y) -> NaN
                      [] IsInf(x) -> IF IsZero(y) THEN Inf((x.s + y.s) % 2) ELSE Inf(XorSign(x, y))
                      [] IsInf(y) -> Zero
                      [] IsZero(y) -> IF IsZero(x) THEN NaN ELSE Inf((NegBit(x) + y.s) % 2)
\* same class and sign
Same(r, x) == CASE x.k = "n" -> IsNaN(r)
                [] x.k = "i" -> IsInf(r) /\ r.s = x.s
                [] x.k = "z" -> IsZero(r)
                [] x.k = "f" -> IsFin(r) /\ Eq(r, x)

---------------------------------------------------------------------------
(* Exactness.  The decimal back end represents every decimal of at most d  *)
(* digits, the binary ones every integer of at most d digits.              *)
Span(x, y) == BMax(Mag(x), Mag(y)) ++ 1 -- BMin(LowExp(x), LowExp(y))
IntOK(be, x) == ~Binary(be) \/ LowExp(x) \succeq 0
ExactAdd(be, x, y, d) == IsZero(x) \/ IsZero(y) \/
   (Span(x, y) \preceq d /\ IntOK(be, x) /\ IntOK(be, y) /\ (~Binary(be) \/ BMax(Mag(x), Mag(y)) \prec d))
ExactMul(be, x, y, d) == IsZero(x) \/ IsZero(y) \/
   ((SigDigits(x) ++ SigDigits(y)) \preceq d /\ IntOK(be, x) /\ IntOK(be, y) /\ (~Binary(be) \/ (Mag(x) ++ Mag(y)) \prec d))

AddOK(be, x, y, r, d) ==
  IF ~(IsFinite(x) /\ IsFinite(y)) THEN Same(r, AddSpecial(x, y))
  ELSE LET s == Add(x, y)
       IN IF IsZero(s) THEN IsZero(r)
          ELSE /\ Result(be, r, s, MaxAbs(x, y), d)
               /\ IsFin(r) /\ ExactAdd(be, x, y, d) => Eq(r, s)
               /\ IsFin(r) => Sign(r) = Sign(s)
SubOK(be, x, y, r, d) == AddOK(be, x, Neg(y), r, d)

MulOK(be, x, y, r, d) ==
  IF ~(IsFinite(x) /\ IsFinite(y)) THEN Same(r, MulSpecial(x, y))
  ELSE LET p == Mul(x, y)
       IN IF IsZero(p) THEN IsZero(r)
          ELSE /\ Result(be, r, p, p, d)
               /\ IsFin(r) /\ ExactMul(be, x, y, d) => Eq(r, p)

\* the same for an operand that is only known to d digits (a binary fraction taken in): no exactness
AddNear(be, x, y, r, d) ==
  IF ~(IsFinite(x) /\ IsFinite(y)) THEN Same(r, AddSpecial(x, y))
  ELSE LET s == Add(x, y) IN IF IsZero(x) /\ IsZero(y) THEN IsZero(r) ELSE Result(be, r, s, MaxAbs(x, y), d)
MulNear(be, x, y, r, d) ==
  IF ~(IsFinite(x) /\ IsFinite(y)) THEN Same(r, MulSpecial(x, y))
  ELSE LET p == Mul(x, y) IN IF IsZero(p) THEN IsZero(r) ELSE Result(be, r, p, p, d)

DivOK(be, x, y, r, d) ==
  IF ~(IsFinite(x) /\ IsFinite(y)) \/ IsZero(y) THEN Same(r, DivSpecial(x, y))
  ELSE IF IsZero(x) THEN IsZero(r)
  ELSE Saturate(be, r, x, y, XorSign(x, y), IsFin(r) /\ CloseQuot(r, x, y, d))

\* r is the value x taken in (from a literal or an assignment), accurate to d digits, exact with at most d digits
InOK(be, x, r, d) == IF IsZero(x) THEN IsZero(r)
                     ELSE IF ~IsFin(x) THEN Same(r, x)
                     ELSE /\ Saturate(be, r, x, One, NegBit(x), IsFin(r) /\ Close(r, x, d))
                          /\ (IsFin(r) /\ SigDigits(x) \preceq d /\ IntOK(be, x) /\ (~Binary(be) \/ Mag(x) \preceq d)) => Eq(r, x)
=============================================================================
