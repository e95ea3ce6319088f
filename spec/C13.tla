--------------------------------- MODULE C13 ---------------------------------
EXTENDS EFloatMachine, Driver
Full13(prog) == \A n \in 1..Len(prog) : prog[n][1] # "prc"
AcceptC13(ev) == LET v == RunOK(ev.be, ev.a[1], ev.r)
                 IN IF v # "TRUE" THEN v ELSE IF ev.be = "efx" /\ Full13(ev.a[1]) /\ ~Repeatable(ev.a[1], ev.r) THEN "not repeatable" ELSE TRUE
Next == Validate(AcceptC13)
=============================================================================
