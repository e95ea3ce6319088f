--------------------------------- MODULE C23 ---------------------------------
(* Lists of primes and factorizations.                                       *)
EXTENDS EFloatOps, Primes, Driver
\* the words of a text
RECURSIVE Split(_, _, _, _)
Split(s, c, from, i) == IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
                        ELSE IF SubSeq(s, i, i) = c THEN <<SubSeq(s, from, i - 1)>> \o Split(s, c, i + 1, i + 1) ELSE Split(s, c, from, i + 1)
Words(s, c) == IF s = "" THEN <<>> ELSE Split(s, c, 1, 1)
Pairs(s) == [i \in 1..Len(Words(s, " ")) |-> LET w == Words(Words(s, " ")[i], "^") IN <<Dec(w[1]), Dec(w[2])>>]
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE (q[1][1] ^^ q[1][2]) ** Product(SubSeq(q, 2, Len(q)))
Factorization(n, s) ==
  LET q == Pairs(s)
  IN /\ Product(q) \doteq n
     /\ \A i \in 1..Len(q) : IsPrime(q[i][1]) /\ q[i][2] \succeq 1 /\ \A j \in 1..(i - 1) : ~(q[i][1] \doteq q[j][1])
AcceptC23(ev) ==
  CASE ev.op = "primes" -> \A i \in 1..Len(ev.a) : LET n == Dec(ev.a[i].v) IN Dec(ev.r[2 * i - 1].v) \doteq n /\ ev.r[2 * i].v = FirstPrimes(n)
    [] ev.op = "pfac" -> \A i \in 1..Len(ev.a) : LET n == Dec(ev.a[i].v) IN n \preceq 1 \/ Factorization(n, ev.r[i].v)
Next == Validate(AcceptC23)
=============================================================================
