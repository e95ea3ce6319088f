--------------------------------- MODULE C01 ---------------------------------
EXTENDS EFloatOps, Driver
AcceptC01(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.a[2])
      r == Obs(ev.r[1])
      one == Int2V(1)
  IN CASE ev.op \in {"add", "addeq"} -> AddOK(ev.be, x, y, r, 101)
       [] ev.op \in {"sub", "subeq"} -> SubOK(ev.be, x, y, r, 101)
       [] ev.op = "addcomm" -> AddOK(ev.be, x, y, r, 101) /\ Same(Obs(ev.r[2]), r) /\ SubOK(ev.be, x, y, Obs(ev.r[3]), 101) /\ Same(Neg(Obs(ev.r[4])), Obs(ev.r[3]))
       [] ev.op = "inc" -> AddOK(ev.be, x, one, r, 101)
       [] ev.op = "dec" -> SubOK(ev.be, x, one, r, 101)
       [] ev.op = "postinc" -> AddOK(ev.be, x, one, r, 101) /\ Same(Obs(ev.r[2]), x)
       [] ev.op = "postdec" -> SubOK(ev.be, x, one, r, 101) /\ Same(Obs(ev.r[2]), x)
       [] ev.op = "selfadd" -> AddOK(ev.be, x, x, r, 101)
       [] ev.op = "selfsub" -> IsZero(r)
Next == Validate(AcceptC01)
=============================================================================
