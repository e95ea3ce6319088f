--------------------------------- MODULE C08 ---------------------------------
EXTENDS EFloatOps, Driver
LLMax == (2 ^^ 63) -- 1
LLMin == 0 -- (2 ^^ 63)
ULLMax == (2 ^^ 64) -- 1
Clamp(v, lo, hi) == BMin(BMax(v, lo), hi)
\* the integer part, huge values cut
Ip(x) == IF IsInf(x) \/ (IsFin(x) /\ Mag(x) \succ 40) THEN (IF Sign(x) < 0 THEN 0 -- P10(40) ELSE P10(40)) ELSE TruncI(x)
IsInt(j, v) == j.k = "N" /\ Dec(j.v) \doteq v
\* a binary number r of p bits for the value x: within two units in the last place, infinite beyond the largest, zero or close below the smallest normal
Float(x, r, p, emax) ==
  LET big == Mul(Fin((2 ^^ p) -- 1, 0), Fin(2 ^^ (emax - p + 1), 0))
      tiny == Fin(5 ^^ (emax - 1), 1 - emax)                 \* 2^(1-emax)
      ulp2 == Fin(5 ^^ (p - 2), 2 - p)                        \* 2^(2-p)
  IN CASE IsNaN(x) -> IsNaN(r)
       [] IsInf(x) -> Same(r, x)
       [] IsZero(x) -> IsZero(r)
       [] Lt(big, AbsV(x)) -> (IsInf(r) /\ r.s = NegBit(x)) \/ (IsFin(r) /\ Eq(AbsV(r), big) /\ Sign(r) = Sign(x) /\ Le(AbsV(x), Mul(big, Add(One, ulp2))))
       [] Lt(AbsV(x), tiny) -> IsZero(r) \/ (IsFin(r) /\ Sign(r) = Sign(x) /\ Le(AbsV(r), Mul(tiny, Add(One, ulp2))))
       [] OTHER -> IsFin(r) /\ Sign(r) = Sign(x) /\ Within(r, x, Mul(AbsV(x), ulp2))
Out(ev) ==
  LET x == Obs(ev.a[1])
      i == Ip(x)
      sll == Clamp(i, LLMin, LLMax)
      R(k) == Obs(ev.r[k])
      e == ev.r[9]
  IN /\ ~IsNaN(x) => /\ IsInt(ev.r[1], sll)
                     \* a negative value becomes unsigned by way of the signed type
                     /\ IsInt(ev.r[2], IF Sign(x) < 0 THEN sll %% (2 ^^ 64) ELSE BMin(i, ULLMax))
                     /\ IsInt(ev.r[3], Clamp(i, 0 -- (2 ^^ 31), (2 ^^ 31) -- 1))
                     /\ IsInt(ev.r[4], sll)
     /\ Float(x, R(5), 53, 1023) /\ Float(x, R(6), 64, 16383) /\ Float(x, R(7), 53, 1023)
     \* mantissa and decimal exponent approximate the value
     /\ IsFin(x) => LET v == Shift(Obs(ev.r[8]), Dec(e.v)) IN IsFin(v) /\ CloseTo(v, x, x, IF ev.be = "efx" THEN 15 ELSE 6)
FromI(ev) == Eq(Obs(ev.r[1]), Obs(ev.a[1])) /\ ev.r[2] = ev.r[1] /\ ev.r[3] = ev.a[1]
FromF(ev) ==
  LET n == Obs(ev.a[1])
      v == Obs(ev.r[1])
  IN CASE ~IsFinite(n) -> Same(v, n) /\ Same(Obs(ev.r[2]), n)
       [] IsZero(n) -> IsZero(v) /\ IsZero(Obs(ev.r[2])) /\ IsZero(Obs(ev.r[3]))
       [] OTHER -> /\ IsFin(v) /\ Close(v, n, 101) /\ ev.r[2] = ev.r[1]
                   /\ Eq(Obs(ev.r[3]), n)
AcceptC08(ev) == CASE ev.op = "out" -> Out(ev)
                   [] ev.op = "frommexp" -> Close(Obs(ev.r[1]), Shift(Obs(ev.a[1]), Dec(ev.a[2].v)), IF ev.be = "efx" THEN 14 ELSE 101)
                   [] OTHER -> IF ev.a[2].v = "i" THEN FromI(ev) ELSE FromF(ev)
Next == Validate(AcceptC08)
=============================================================================
