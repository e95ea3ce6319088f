--------------------------------- MODULE C27 ---------------------------------
(* Named constants and numeric limits.                                        *)
EXTENDS Consts, Driver
Two(n) == Int2V(2 ^^ n)
BitMax(p, n) == Mul(Int2V((2 ^^ p) -- 1), Two(n - p))             \* the largest p-bit number below 2^n
ConstV(n) ==
  CASE n = "zero" -> Zero [] n = "one" -> One [] n = "half" -> Fin(5, -1)
    [] n = "two" -> Int2V(2) [] n = "three" -> Int2V(3) [] n = "four" -> Int2V(4) [] n = "five" -> Int2V(5) [] n = "six" -> Int2V(6)
    [] n = "seven" -> Int2V(7) [] n = "eight" -> Int2V(8) [] n = "nine" -> Int2V(9) [] n = "ten" -> Int2V(10) [] n = "fifty" -> Int2V(50)
    [] n = "hundred" -> Int2V(100) [] n = "thousand" -> Int2V(1000) [] n = "million" -> Int2V(1000000) [] n = "billion" -> Int2V(1000000000)
    [] n = "trillion" -> Fin(1, 12) [] n = "googol" -> Fin(1, 100)
    [] n = "int32_min" -> Neg(Two(31)) [] n = "int32_max" -> Int2V((2 ^^ 31) -- 1)
    [] n \in {"int64_min", "signed_long_long_min"} -> Neg(Two(63)) [] n \in {"int64_max", "signed_long_long_max"} -> Int2V((2 ^^ 63) -- 1)
    [] n = "unsigned_long_long_max" -> Int2V((2 ^^ 64) -- 1)
    [] n = "double_min" -> DivC(One, Two(1022)) [] n = "double_max" -> BitMax(53, 1024)
    [] n = "long_double_min" -> DivC(One, Two(16382)) [] n = "long_double_max" -> BitMax(64, 16384)
    [] n = "one_minus" -> Neg(One) [] n = "tenth" -> Fin(1, -1) [] n = "eighth" -> Fin(125, -3) [] n = "fifth" -> Fin(2, -1) [] n = "quarter" -> Fin(25, -2)
    [] n = "third" -> DivC(One, Int2V(3)) [] n = "two_third" -> DivC(Int2V(2), Int2V(3)) [] n = "three_half" -> Fin(15, -1)
    [] n = "sqrt2" -> Sqrt2V [] n \in {"pi", "gpi"} -> PiV [] n = "pi_half" -> PiHalfV [] n = "pi_squared" -> FxV(Pi2) [] n = "two_pi" -> Mul(Int2V(2), PiV)
    [] n = "sqrt_pi" -> SqrtPiV [] n = "e" -> FxV(ESum) [] n \in {"ln2", "gln2"} -> Ln2V [] n = "ln10" -> Ln10V [] n = "phi" -> PhiV
    [] n \in {"euler_gamma", "ggamma"} -> FxV(EulerFx) [] n = "catalan" -> FxV(CatFx) [] n = "khinchin" -> KhinV [] n = "glaisher" -> GlaV
Exactly == {"zero", "one", "half", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "fifty", "hundred", "thousand", "million", "billion",
            "trillion", "int32_min", "int32_max", "int64_min", "int64_max", "signed_long_long_min", "signed_long_long_max", "unsigned_long_long_max",
            "one_minus", "eighth", "quarter", "three_half"}
IsConst(r, n) == LET v == ConstV(n)
                 IN IsFinite(r) /\ IF n \in Exactly THEN Eq(r, v) ELSE Within(r, v, Shift(AbsV(v), 1 - D))
BoolIs(r, b) == r.k = "b" /\ r.v = b
NumIs(r, n) == r.k = "N" /\ Dec(r.v) \doteq n
Approx(r, v) == IsFin(r) /\ Within(r, v, Shift(AbsV(v), 1 - D))
Bools == <<TRUE, TRUE, FALSE, FALSE, TRUE, FALSE, TRUE, TRUE, FALSE, FALSE>>
InfS(r, s) == IsInf(r) /\ Sign(r) = s
\* a binary exponent that goes with the decimal one (in thousandths, as 301 / 1000)
Goes(e2, e10, radix) == IF radix \doteq 10 THEN e2 \doteq e10 ELSE BAbs((e2 ** 30103) -- (e10 ** 100000)) \preceq (BAbs(e10) ** 50)
AcceptC27(ev) ==
  LET o(k) == Obs(ev.r[k])
      n(k) == Dec(ev.r[k].v)
      all(s) == Len(ev.r) = Len(s) /\ \A k \in 1..Len(s) : BoolIs(ev.r[k], s[k])
  IN CASE ev.op = "const" -> Len(ev.r) > 0 /\ \A k \in 1..Len(ev.r) : IsConst(o(k), ev.a[1].v)
       [] ev.op = "bool" -> all(Bools)
       [] ev.op = "digits" -> /\ n(2) \doteq D /\ n(3) \doteq (D + 1) /\ (n(4) \doteq 10 \/ n(4) \doteq 2)
                              /\ IF n(4) \doteq 10 THEN n(1) \doteq D ELSE (2 ^^ n(1)) \succeq P10(D - 1) /\ (2 ^^ n(1)) \preceq P10(D + 2 + D \div 100)
       [] ev.op = "exps" -> /\ Goes(n(3), n(1), n(5)) /\ Goes(n(4), n(2), n(5)) /\ n(1) \prec (0 - 1000000) /\ n(2) \succ 1000000
                            /\ Approx(o(6), Fin(1, n(1))) /\ Approx(o(8), Fin(1, n(2))) /\ Approx(o(9), Fin(1, n(1)))
                            /\ IsFin(o(7)) /\ Approx(o(7), Fin(1, n(2) ++ 1))
       \* min, max, lowest, epsilon, round_error, infinity, quiet_NaN, denorm_min
       [] ev.op = "vals" -> /\ IsFin(o(1)) /\ Sign(o(1)) = 1 /\ IsFin(o(2)) /\ Sign(o(2)) = 1
                            /\ IsFin(o(3)) /\ Eq(o(3), Neg(o(2)))
                            /\ Approx(o(4), Fin(1, 1 - D)) /\ IsFin(o(5)) /\ Eq(o(5), Fin(5, -1)) /\ InfS(o(6), 1) /\ IsNaN(o(7)) /\ Eq(o(8), o(1))
       \* above the largest and below the smallest value there is one decade at most
       [] ev.op = "edge" -> /\ InfS(o(1), 1)
                            /\ InfS(o(2), 1) \/ (ev.be # "efx" /\ IsFin(o(2)) /\ Sign(o(2)) = 1)
                            /\ IsZero(o(3))
                            /\ InfS(o(4), -1) \/ (ev.be # "efx" /\ IsFin(o(4)) /\ Sign(o(4)) = -1)
                            /\ IsZero(o(5)) \/ (ev.be # "efx" /\ IsFin(o(5)) /\ Sign(o(5)) = 1)
                            /\ IsZero(o(6)) /\ IsFin(o(7)) /\ IsFin(o(8))
                            /\ Approx(o(9), One) /\ Le(Add(One, Fin(5, 0 - D)), o(9)) /\ BoolIs(ev.r[10], TRUE)
                            /\ Approx(o(11), One) /\ Le(o(11), Sub(One, Fin(5, 0 - D)))
                            /\ InfS(o(12), 1) /\ BoolIs(ev.r[13], TRUE) /\ BoolIs(ev.r[14], TRUE) /\ BoolIs(ev.r[15], TRUE) /\ IsNaN(o(16))
       [] ev.op = "order" -> all(<<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>)
Next == Validate(AcceptC27)
=============================================================================
