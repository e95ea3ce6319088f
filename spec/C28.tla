--------------------------------- MODULE C28 ---------------------------------
(* Recorded programs over arrays are behaviours of ArrayMachine, and nothing  *)
(* is left over at the end: no element, no storage, no bad release.           *)
EXTENDS ArrayMachine, Driver
Same(st, obs) == \A i \in Ra : st.kn[i] => obs[i + 1] = st.arr[i]
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(fx, st, prog, r, n) ==
  IF n > Len(prog) THEN (IF r[n] = <<0, 0, 0>> THEN TRUE ELSE "something is left over " \o ToString(r[n]))
  ELSE LET nx == Apply(fx, st, prog[n])
       IN IF ~Enabled(st, prog[n]) THEN "bad program " \o ToString(n)
          ELSE IF Same(nx, r[n]) /\ r[n][1] = Extra(st, prog[n]) THEN RunFrom(fx, nx, prog, r, n + 1)
          ELSE "step " \o ToString(n) \o " " \o ToString(prog[n]) \o " " \o ToString(r[n]) \o " expected " \o ToString(nx.arr) \o " " \o ToString(Extra(st, prog[n]))
FixOf(op) == CASE op \in {"fixel", "fixu"} -> 5 [] op = "fix1" -> 1 [] OTHER -> 0
AcceptC28(ev) == LET fx == FixOf(ev.op) IN RunFrom(fx, Start(fx), ev.a[1], ev.r, 1)
Next == Validate(AcceptC28)
=============================================================================
