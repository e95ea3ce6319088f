--------------------------------- MODULE C05 ---------------------------------
EXTENDS EFloatOps, Literal, Driver
AcceptC05(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.a[2])
      r == Obs(ev.r[1])
      be == ev.be
  IN CASE ev.op \in {"add", "addeq"} -> AddOK(be, x, y, r, 101)
       [] ev.op \in {"sub", "subeq"} -> SubOK(be, x, y, r, 101)
       [] ev.op \in {"mul", "muleq"} -> MulOK(be, x, y, r, 101)
       [] ev.op \in {"div", "diveq"} -> DivOK(be, x, y, r, 101)
       [] ev.op = "inv" -> DivOK(be, One, x, r, 101)
       [] ev.op = "selfmul" -> MulOK(be, x, x, r, 101)
       [] ev.op = "selfadd" -> AddOK(be, x, x, r, 101)
       [] ev.op = "lit" -> InOK(be, LitValue(ev.a[1].v), r, 101)
Next == Validate(AcceptC05)
=============================================================================
