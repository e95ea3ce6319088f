--------------------------------- MODULE C20 ---------------------------------
EXTENDS Complex, Literal, TextOut, Driver
T1 == D - 1
RealOp(ev) == ev.op \in {"crmul", "crdiv", "cnmul", "cndiv", "cumul", "cudiv"}
Which(op) == CASE op \in {"cadd", "cadds", "cradd", "rcadd", "cnadd", "cuadd"} -> "+"
               [] op \in {"csub", "csubs", "crsub", "rcsub", "cnsub", "cusub"} -> "-"
               [] op \in {"cmul", "cmuls", "crmul", "rcmul", "cnmul", "cumul"} -> "*"
               [] op \in {"cdiv", "cdivs", "crdiv", "rcdiv", "cndiv", "cudiv"} -> "/"
               [] OTHER -> ""
\* r is u op v
ArithOK(be, op, u, v, r) ==
  CASE op = "+" -> AddOK(be, u.x, v.x, r.x, D) /\ AddOK(be, u.y, v.y, r.y, D)
    [] op = "-" -> SubOK(be, u.x, v.x, r.x, D) /\ SubOK(be, u.y, v.y, r.y, D)
    [] op = "*" -> LET f == CMul(u, v)
                   IN /\ CFinite(r)
                      /\ Within(r.x, f.x, Shift(Add(AbsV(Mul(u.x, v.x)), AbsV(Mul(u.y, v.y))), 0 - T1))
                      /\ Within(r.y, f.y, Shift(Add(AbsV(Mul(u.x, v.y)), AbsV(Mul(u.y, v.x))), 0 - T1))
    [] op = "/" -> LET n == Norm(v)
                       f == CMul(u, CConj(v))
                   IN /\ CFinite(r)    \* compare r n with f
                      /\ Within(Mul(r.x, n), f.x, Shift(Add(AbsV(Mul(u.x, v.x)), AbsV(Mul(u.y, v.y))), 0 - T1))
                      /\ Within(Mul(r.y, n), f.y, Shift(Add(AbsV(Mul(u.x, v.y)), AbsV(Mul(u.y, v.x))), 0 - T1))
Arith(ev) ==
  LET u == ObsC(ev.a, 1)
      v == ObsC(ev.a, 3)
      op == Which(ev.op)
  IN /\ ArithOK(ev.be, op, u, v, ObsC(ev.r, 1))
     /\ ArithOK(ev.be, op, u, v, ObsC(ev.r, 3))
     /\ ev.r[5].v
     /\ ev.op = "csubs" => CIsZero(ObsC(ev.r, 1)) /\ CIsZero(ObsC(ev.r, 3))
SameC(a, b) == a.x = b.x /\ a.y = b.y
\* the same value as the operand: identical observation
Ident(ev, k, x, y) == ev.r[k] = x /\ ev.r[k + 1] = y
Ctor(ev) ==
  LET u == ObsC(ev.a, 1)
      n == Dec(ev.a[3].v)
      n6 == BSgn(n) ** (BAbs(n) %% 1000000)
      eqz(k, x) == InOK(ev.be, x, Obs(ev.r[k]), D) /\ IsZero(Obs(ev.r[k + 1]))
  IN /\ eqz(1, Int2V(n6)) /\ eqz(3, Int2V(n)) /\ eqz(5, Obs(ev.a[4])) /\ eqz(7, u.x)
     /\ Ident(ev, 9, ev.a[1], ev.a[2]) /\ Ident(ev, 11, ev.a[1], ev.a[2])
     /\ eqz(13, u.y) /\ Ident(ev, 15, ev.a[2], ev.a[1]) /\ IsZero(Obs(ev.r[17])) /\ IsZero(Obs(ev.r[18]))
Unary(ev) ==
  LET u == ObsC(ev.a, 1)
      same(x, y) == Same(x, y) /\ (IsFin(y) => Eq(x, y))
      n == Norm(u)
      nr == Obs(ev.r[9])
      ar == Obs(ev.r[10])
  IN /\ Ident(ev, 1, ev.a[1], ev.a[2]) /\ Ident(ev, 7, ev.a[1], ev.a[2]) /\ ev.r[11].v
     /\ same(Obs(ev.r[3]), Neg(u.x)) /\ same(Obs(ev.r[4]), Neg(u.y))
     /\ same(Obs(ev.r[5]), u.x) /\ same(Obs(ev.r[6]), Neg(u.y))
     /\ IsFinite(nr) /\ Within(nr, n, Shift(n, 0 - T1))
     /\ IsFinite(ar) /\ Sign(ar) >= 0 /\ Within(Mul(ar, ar), n, Shift(n, 0 - T1))
\* equal parts (observed exactly), answers of == != both ways, and with the real part of v as a real number
Rel(ev) == LET same(p, q) == p = q \/ (p.k = "z" /\ q.k = "z")
               eq == same(ev.a[1], ev.a[3]) /\ same(ev.a[2], ev.a[4])
               er == same(ev.a[1], ev.a[3]) /\ ev.a[2].k = "z"
               s(b) == IF b THEN "TF" ELSE "FT"
           IN ev.r[1].v = s(eq) \o s(eq) \o s(er) \o s(er)
Power(ev) ==
  LET u == ObsC(ev.a, 1)
      n == Dec(ev.a[3].v)
      p == CPowC(u, BAbs(n))
      r == ObsC(ev.r, 1)
      k == IntV(1 ++ BAbs(n))
  IN ev.r[3].v /\ IF n \succeq 0 THEN CNear(r, p, Mul(k, IF CIsZero(u) THEN One ELSE N1(p)), T1)
                  ELSE LET f == CDivC(COne, p) IN CNear(r, f, Mul(k, N1(f)), T1)
InSeq(t, s) == \E i \in 1..Len(s) : s[i] = t
PartOf(t, k) == LET c == FindAny(t, {","}, 1) IN IF k = 1 THEN SubSeq(t, 2, c - 1) ELSE SubSeq(t, c + 1, Len(t) - 1)
Text(ev) ==
  LET u == ObsC(ev.a, 1)
      f == Format(ev.a[3].v, Dec(ev.a[4].v), Dec(ev.a[5].v), ev.a[6].v)
      g == [f EXCEPT !.width = 0]
      M == Dec(ev.a[7].v)
      DD == Dec(ev.a[8].v)
      t1 == Texts(ev.be, u.x, g, M, DD)
      t2 == Texts(ev.be, u.y, g, M, DD)
      t == ev.r[2].v
      p1 == PartOf(t, 1)
      p2 == PartOf(t, 2)
      in(p, r) == InOK(ev.be, LitValue(p), Obs(r), D)
  IN /\ t = "(" \o p1 \o "," \o p2 \o ")" /\ InSeq(p1, t1) /\ InSeq(p2, t2)
     /\ ev.r[1].v = Pad(t, f)
     /\ in(p1, ev.r[3]) /\ in(p2, ev.r[4]) /\ ev.r[5].v
     /\ in(p1, ev.r[6]) /\ IsZero(Obs(ev.r[7])) /\ in(p1, ev.r[8]) /\ IsZero(Obs(ev.r[9]))
Bad(ev) == ev.r[1].v /\ Eq(Obs(ev.r[2]), Int2V(7)) /\ Eq(Obs(ev.r[3]), Int2V(8))
AcceptC20(ev) ==
  CASE ev.op = "cun" -> Unary(ev)
    [] ev.op = "crel" -> Rel(ev)
    [] ev.op = "cctor" -> Ctor(ev)
    [] ev.op = "cpowi" -> Power(ev)
    [] ev.op = "ctext" -> Text(ev)
    [] ev.op = "cbad" -> Bad(ev)
    [] OTHER -> Arith(ev)
Next == Validate(AcceptC20)
=============================================================================
