--------------------------------- MODULE C04 ---------------------------------
EXTENDS EFloatOps, Driver
(* The classification agrees with the value: NIFZ1mpi from the member      *)
(* functions and again from the free functions.                            *)
F(c, b, s) == IF b THEN s = c ELSE s = "-"
\* A flag that asks for an exact property of the value: the binary back ends hold values closer to an integer
\* than the observation can tell, so only a value observed in one piece decides there.
X(be, j, c, b, s) == (Binary(be) /\ "m2" \in DOMAIN j) \/ F(c, b, s)
FlagsOK(be, s, j) ==
  LET v == Obs(j)
      at(i) == SubSeq(s, i, i)
      half(o) == /\ F("N", IsNaN(v), at(o + 1)) /\ F("I", IsInf(v), at(o + 2)) /\ F("F", IsFinite(v), at(o + 3)) /\ F("Z", IsZero(v), at(o + 4))
                 /\ X(be, j, "1", IsFin(v) /\ Eq(v, One), at(o + 5))
                 /\ IsFin(v) \/ IsInf(v) => F("m", NegBit(v) = 1, at(o + 6)) /\ F("p", NegBit(v) = 0, at(o + 7))
                 /\ X(be, j, "i", IsFinite(v) /\ IsIntegral(v), at(o + 8))
  IN half(0) /\ half(8)
SqrtOK(be, x, r, d) == CASE IsNaN(x) -> IsNaN(r)
                      [] IsZero(x) -> IsZero(r)
                      [] Sign(x) < 0 -> IsNaN(r)
                      [] IsInf(x) -> IsInf(r) /\ r.s = 0
                      [] OTHER -> IsFin(r) /\ Sign(r) = 1 /\ Close(Mul(r, r), x, d)
Op(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.a[2])
      r == Obs(ev.r[1])
  IN CASE ev.op \in {"t_add", "t_addeq"} -> AddOK(ev.be, x, y, r, 101)
       [] ev.op \in {"t_sub", "t_subeq"} -> SubOK(ev.be, x, y, r, 101)
       [] ev.op \in {"t_mul", "t_muleq"} -> MulOK(ev.be, x, y, r, 101)
       [] ev.op \in {"t_div", "t_diveq"} -> DivOK(ev.be, x, y, r, 101)
       [] ev.op \in {"t_val", "t_pos", "t_selfassign", "t_copy"} -> Same(r, x)
       [] ev.op \in {"t_neg", "t_negate"} -> Same(r, Neg(x))
       [] ev.op \in {"t_abs", "t_fabs"} -> Same(r, AbsV(x))
       [] ev.op \in {"t_inv", "t_cinv"} -> DivOK(ev.be, One, x, r, 101)
       [] ev.op \in {"t_sqrt", "t_csqrt"} -> SqrtOK(ev.be, x, r, 100)
       [] ev.op = "t_inc" -> AddOK(ev.be, x, One, r, 101)
       [] ev.op = "t_dec" -> SubOK(ev.be, x, One, r, 101)
       [] ev.op = "t_selfadd" -> AddOK(ev.be, x, x, r, 101)
       [] ev.op = "t_selfsub" -> IF IsFinite(x) THEN IsZero(r) ELSE IsNaN(r)
       [] ev.op = "t_selfmul" -> MulOK(ev.be, x, x, r, 101)
       [] ev.op = "t_selfdiv" -> DivOK(ev.be, x, x, r, 101)
       [] ev.op = "t_reuse" -> Same(r, Int2V(22))
Compound == {"t_addeq", "t_subeq", "t_muleq", "t_diveq"}
AcceptC04(ev) == /\ Op(ev)
                 /\ FlagsOK(ev.be, ev.r[2].v, ev.r[1])
                 \* the right operand of a compound operation is not touched
                 /\ ev.op \in Compound => ev.r[3] = ev.a[2] /\ FlagsOK(ev.be, ev.r[4].v, ev.r[3])
Next == Validate(AcceptC04)
=============================================================================
