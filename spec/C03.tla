--------------------------------- MODULE C03 ---------------------------------
EXTENDS EFloatOps, Driver
IsOne(r) == IsFin(r) /\ Eq(r, One)
AcceptC03(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.a[2])
      r == Obs(ev.r[1])
  IN CASE ev.op \in {"div", "diveq", "divq"} ->
                                        /\ DivOK(ev.be, x, y, r, 101)
                                        /\ (ev.be # "gmp" /\ IsFin(x) /\ IsFin(y) /\ Eq(x, y)) => IsOne(r)
                                        /\ (ev.be # "gmp" /\ IsFin(x) /\ IsFin(y) /\ Eq(y, One)) => Same(r, x)
       [] ev.op \in {"inv", "invf"} -> DivOK(ev.be, One, x, r, 101)
       [] ev.op = "selfdiv" -> IF IsZero(x) THEN IsNaN(r) ELSE DivOK(ev.be, x, x, r, 101) /\ (ev.be # "gmp" => IsOne(r))
Next == Validate(AcceptC03)
=============================================================================
