--------------------------------- MODULE C14 ---------------------------------
EXTENDS EFloatMachine, Driver
AcceptC14(ev) == LET v == RunOK(ev.be, ev.a[1], ev.r) IN IF v = "TRUE" THEN TRUE ELSE v
Next == Validate(AcceptC14)
=============================================================================
