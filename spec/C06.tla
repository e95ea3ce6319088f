--------------------------------- MODULE C06 ---------------------------------
EXTENDS EFloatOps, Driver
(* The order.  RelStr(c): the answers of <, <=, ==, !=, >=, > when the      *)
(* numerical order of the operands is c.                                    *)
Bit(b) == IF b THEN "T" ELSE "F"
RelStr(c) == Bit(c < 0) \o Bit(c <= 0) \o Bit(c = 0) \o Bit(c # 0) \o Bit(c >= 0) \o Bit(c > 0)
NeverEqual(s) == SubSeq(s, 3, 4) = "FT"
\* x and y are apart by more than the observation can blur
Apart(x, y, d) == ~(IsFin(x) /\ IsFin(y)) \/ ~CloseTo(x, y, x, d)
\* sign of an observed integer
SgnN(j) == BSgn(Dec(j.v))
TwoValues(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.a[2])
      d == Obs(ev.r[9])
      c == SgnN(ev.r[3])
      same == ev.op = "cmpself" \/ (ev.a[1] = ev.a[2] /\ ~("m2" \in DOMAIN ev.a[1]))
  IN IF IsNaN(x) \/ IsNaN(y) THEN NeverEqual(ev.r[1].v) /\ NeverEqual(ev.r[2].v) /\ ~(ev.r[3].v = "0") /\ ~(ev.r[5].v = "0")
     ELSE /\ (ev.be = "efx" \/ Apart(x, y, 112) \/ same) => c = Cmp(x, y)
          /\ ev.r[1].v = RelStr(c) /\ ev.r[2].v = RelStr(0 - c)
          /\ SgnN(ev.r[4]) = 0 - c /\ SgnN(ev.r[5]) = c /\ SgnN(ev.r[6]) = 0 - c
          /\ ev.r[7] = (IF c <= 0 THEN ev.a[1] ELSE ev.a[2])
          /\ ev.r[8] = (IF c >= 0 THEN ev.a[1] ELSE ev.a[2])
          \* the sign of the difference
          /\ (IsFinite(x) /\ IsFinite(y)) => /\ c = 0 => IsZero(d)
                                             /\ IsFin(d) \/ IsInf(d) => Sign(d) = c
                                             /\ IsZero(d) => c = 0 \/ (Mag(x) \prec (Lim(ev.be).lf ++ 300))
Builtin(ev) ==
  LET x == Obs(ev.a[1])
      y == Obs(ev.a[2])
  IN IF IsNaN(x) \/ IsNaN(y) THEN NeverEqual(ev.r[1].v) /\ NeverEqual(ev.r[2].v)
     ELSE IF Apart(x, y, 99) \/ (IsFin(y) /\ y.e \succeq 0 /\ IsFin(x) /\ x.e \succeq 0 /\ Mag(x) \prec 100) \/ (ev.be = "efx" /\ IsFin(y) /\ SigDigits(y) \preceq 100)
          THEN ev.r[1].v = RelStr(Cmp(x, y)) /\ ev.r[2].v = RelStr(Cmp(y, x))
     ELSE \E c \in {-1, 0, 1} : ev.r[1].v = RelStr(c) /\ ev.r[2].v = RelStr(0 - c)
AcceptC06(ev) == IF ev.op \in {"cmp", "cmpway", "cmpself"} THEN TwoValues(ev) ELSE Builtin(ev)
Next == Validate(AcceptC06)
=============================================================================
