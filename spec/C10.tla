--------------------------------- MODULE C10 ---------------------------------
EXTENDS TextOut, Driver
InSeq(t, s) == \E i \in 1..Len(s) : s[i] = t
AcceptC10(ev) ==
  LET x == Obs(ev.a[1])
      f == Format(ev.a[2].v, Dec(ev.a[3].v), Dec(ev.a[4].v), ev.a[5].v)
      M == Dec(ev.a[6].v)
      D == Dec(ev.a[7].v)
      ts == Texts(ev.be, x, f, M, D)
      t2 == Texts(ev.be, x, [f EXCEPT !.width = 0], M, D)
      got == ev.r[1].v
  IN IF InSeq(got, ts) /\ ev.r[2].v /\ InSeq(ev.r[3].v, t2) THEN TRUE ELSE <<"expected one of", ts>>
Next == Validate(AcceptC10)
=============================================================================
