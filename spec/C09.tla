--------------------------------- MODULE C09 ---------------------------------
EXTENDS EFloatOps, Literal, Driver
(* A literal denotes one number however it is spelled, by whatever route   *)
(* it is read and whatever the object held before.                         *)
AcceptC09(ev) ==
  LET v == LitValue(ev.a[1].v)
      r(i) == Obs(ev.r[i])
  IN CASE ev.op = "lit9" -> /\ InOK(ev.be, v, r(1), 101)
                            /\ \A i \in {2, 3, 4, 7, 8} : Same(r(i), r(1))
                            /\ Same(r(5), Fin(175, -1))
                            /\ ev.r[6].v
       [] ev.op = "lit9p" -> /\ InOK(ev.be, v, r(1), 101)
                             /\ InOK(ev.be, v, r(2), 101)
Next == Validate(AcceptC09)
=============================================================================
