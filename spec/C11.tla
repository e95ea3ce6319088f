--------------------------------- MODULE C11 ---------------------------------
EXTENDS TextOut, EFloatOps, Literal, Driver
(* value, flags, precision; value read back, text, text of the value read back *)
AcceptC11(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.r[1])
      M == Dec(ev.a[4].v)
      P == Dec(ev.a[3].v)
      fx == HasCh(ev.a[2].v, "f")
      t == LitValue(ev.r[2].v)
      E0 == IF IsZero(x) THEN 0 ELSE Mag(x) -- 1
      \* number of significant digits written
      n == IF fx THEN BMin(M + 1, E0 ++ 1 ++ P) ELSE IF HasCh(ev.a[2].v, "s") THEN BMin(M + 1, P + 1) ELSE BMin(M, P)
      \* the general format chooses its layout before it rounds
      gen == ~fx /\ ~HasCh(ev.a[2].v, "s")
      carry == gen /\ ~IsZero(t) /\ Mag(t) \succ Mag(x)
      t2 == LitValue(ev.r[3].v)
      u == Fin(1, IF IsZero(t) THEN 0 ELSE Mag(t) -- n)
      \* GMP's own conversion may miss the last digit by one where a limb ends
      limb == ev.be = "gmp" /\ n % 19 \in {0, 1}
  IN IF IsZero(x) THEN IsZero(y) /\ ev.r[2].v = ev.r[3].v
     ELSE /\ InOK(ev.be, t, y, 101)                                      \* what is read is what is written
          /\ CASE IsInf(y) -> Mag(t) \succ Mag(x)                        \* rounded up beyond the largest value
               [] IsZero(y) -> n <= 0 \/ Mag(x) \preceq Lim(ev.be).lf ++ 1 \* nothing left to print, or rounded down below the smallest
               [] OTHER -> /\ n >= 1 => IsFin(y) /\ Close(y, x, BMin(n -- 1, 101))    \* and that is the value
                           /\ (n >= 102 /\ SigDigits(x) \preceq 100 /\ IntOK(ev.be, x) /\ (~Binary(ev.be) \/ Mag(x) \preceq 100)) => Eq(y, x)
                           /\ CASE carry -> Eq(t2, t)
                                [] limb -> Le(AbsV(Sub(t2, t)), Fin(11, u.e -- 1))
                                [] OTHER -> ev.r[2].v = ev.r[3].v
Next == Validate(AcceptC11)
=============================================================================
