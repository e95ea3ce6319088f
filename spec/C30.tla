--------------------------------- MODULE C30 ---------------------------------
(* A library without memory: what a call returns is a function of the call.   *)
(* The function is read off the histories of one call (the first call of a    *)
(* process); every call of every other history has to agree with it.  The     *)
(* text of a result also tells when overwriting another value or the          *)
(* argument made a difference, or when the argument was modified.             *)
EXTENDS Driver, Iterate
NF == 138
NA == 12
Key(c) == 1 + c.f * NA + c.a
Single(e, be) == e.be = be /\ e.x = "" /\ Len(e.r) = 1 /\ Len(e.r[1]) = 1
RefOf(be) == LET step(q) == <<q[1] + 1, IF Single(Events[q[1]], be) THEN [q[2] EXCEPT ![Key(Events[q[1]].r[1][1])] = Events[q[1]].r[1][1].t] ELSE q[2]>>
             IN Times(step, NEv, <<1, [k \in 1..(NF * NA) |-> ""]>>)[2]
RefEfx == RefOf("efx")
RefGmp == RefOf("gmp")
RefMpfr == RefOf("mpfr")
Ref(be) == CASE be = "efx" -> RefEfx [] be = "gmp" -> RefGmp [] be = "mpfr" -> RefMpfr
HasCh(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c
\* a difference between the ways of taking a result is told after a blank and a word
Plain(c) == c.t # "" /\ \A w \in {" overwriting: ", " in place: ", " in place of the first: ", " in place of the second: ", " argument: "} :
            \A i \in 1..(Len(c.t) - Len(w)) : SubSeq(c.t, i, i) # " " \/ SubSeq(c.t, i, i + Len(w) - 1) # w
AcceptC30(ev) ==
  LET h == ev.r[1]
      bad == {k \in 1..Len(h) : h[k].t # Ref(ev.be)[Key(h[k])]}
  IN IF Len(h) = 1 THEN (IF Plain(h[1]) THEN TRUE ELSE h[1].t)
     ELSE IF bad = {} THEN TRUE
     ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN "call " \o ToString(k) \o " " \o h[k].t \o " alone " \o Ref(ev.be)[Key(h[k])]
Next == Validate(AcceptC30)
=============================================================================
