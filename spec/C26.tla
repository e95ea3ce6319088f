--------------------------------- MODULE C26 ---------------------------------
(***************************************************************************)
(* Hypergeometric series, summed by their definition                        *)
(*   T(0) = 1,  T(n+1) = T(n) (a1+n)...(ap+n) x / ((b1+n)...(bq+n) (n+1)).  *)
(* The error is at most a few units of the sum of (n+4) |T(n)|, which is    *)
(* about the largest term times the number of terms that matter.            *)
(***************************************************************************)
EXTENDS Elem, Iterate, Driver
Tol == D - 1
Bits == D + 60
M(x, y) == Cut(Mul(x, y), Bits)
Q(x, y) == IF IsZero(x) THEN x
           ELSE LET k == BMax(0, (Bits ++ NDig(y.m)) -- NDig(x.m))
                IN Fin((BSgn(x.m) * BSgn(y.m)) ** ((BAbs(x.m) ** P10(k)) // BAbs(y.m)), (x.e -- y.e) -- k)
RECURSIVE Fold(_, _, _, _)
Fold(s, i, n, acc) == IF i > Len(s) THEN acc ELSE Fold(s, i + 1, n, M(acc, Add(s[i], Int2V(n))))
\* <<the sum, the sum of (n+4)|T(n)|>>; it stops after many terms in a row that do not matter, beyond the parameters
Sum(a, b, x) ==
  LET step(s) ==                 \* <<n, T(n), sum, absolute sum, number of tiny terms>>
        LET n == s[1]
            abs == Cut(Add(s[4], M(AbsV(s[2]), Int2V(n + 4))), Bits)
            u == Q(M(Fold(a, 1, n, s[2]), x), Fold(b, 1, n, Int2V(n + 1)))
        IN <<n + 1, u, Cut(Add(s[3], s[2]), Bits), abs, IF Le(AbsV(u), Shift(abs, 0 - (D + 20))) THEN s[5] + 1 ELSE 0>>
      done(s) == IsZero(s[2]) \/ (s[5] >= 60 /\ s[1] > 120)
      r == Until(step, done, <<0, One, Zero, Zero, 0>>)
  IN <<r[3], r[4]>>
AcceptC26(ev) ==
  LET p == Dec(ev.a[1].v)
      q == Dec(ev.a[2].v)
      a == ([i \in 1..p |-> Obs(ev.a[2 + i])])
      b == ([i \in 1..q |-> Obs(ev.a[2 + p + i])])
      x == Obs(ev.a[3 + p + q])
      s == Sum(a, b, x)
      ok(r) == Near(ev.be, r, s[1], s[2], Tol)
  IN ok(Obs(ev.r[1])) /\ ok(Obs(ev.r[2]))
Next == Validate(AcceptC26)
=============================================================================
