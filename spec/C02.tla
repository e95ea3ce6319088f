--------------------------------- MODULE C02 ---------------------------------
EXTENDS EFloatOps, Driver
AcceptC02(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.a[2])
      r == Obs(ev.r[1])
  IN CASE ev.op \in {"mul", "muleq"} -> MulOK(ev.be, x, y, r, 101)
       [] ev.op = "mulcomm" -> MulOK(ev.be, x, y, r, 101) /\ Same(Obs(ev.r[2]), r)
       [] ev.op \in {"selfmul"} -> MulOK(ev.be, x, x, r, 101)
       \* b *= b through one object, a * c with c = a, a * a
       [] ev.op = "sqr" -> MulOK(ev.be, x, x, r, 101) /\ Same(Obs(ev.r[2]), r) /\ Same(Obs(ev.r[3]), r)
Next == Validate(AcceptC02)
=============================================================================
