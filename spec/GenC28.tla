------------------------------- MODULE GenC28 -------------------------------
(***************************************************************************)
(* Programs over arrays, every step of which keeps the contract of its     *)
(* operation: all pairs of steps over a few operands, then longer programs *)
(* at random.                                                              *)
(***************************************************************************)
EXTENDS GenBase, ArrayMachine
Ops == <<"arrel", "arru", "arrd", "fixel", "fixu", "fix1">>
FixOf(op) == CASE op \in {"fixel", "fixu"} -> 5 [] op = "fix1" -> 1 [] OTHER -> 0
Ins(h) == <<PickSeq(Hash(h, 1), Codes), Hash(h, 2) %% NA, IF (Hash(h, 3) %% 3) \doteq 0 THEN Hash(h, 2) %% NA ELSE Hash(h, 4) %% NA, Hash(h, 5) %% 7, 1 + (Hash(h, 6) %% 3)>>
InsTxt(x) == x[1] \o " " \o ToString(x[2]) \o " " \o ToString(x[3]) \o " " \o ToString(x[4]) \o " " \o ToString(x[5])
RECURSIVE Prog(_, _, _, _, _)
Prog(fx, h, n, st, acc) ==
  IF n = 0 THEN acc
  ELSE LET x == Ins(Hash(h, n))
       IN IF Enabled(st, x) THEN Prog(fx, h, n - 1, Apply(fx, st, x), Append(acc, InsTxt(x)))
          ELSE LET y == <<"new", x[2], 0, Hash(h, n + 7000) %% 4, x[5]>> IN Prog(fx, h, n - 1, Apply(fx, st, y), Append(acc, InsTxt(y)))
RECURSIVE Join(_, _)
Join(s, n) == IF n = Len(s) THEN s[n] ELSE s[n] \o ";" \o Join(s, n + 1)
\* all steps over a few operands
NC == Len(Codes)
Step(k) == LET c == Codes[1 + (k % NC)]
               q == k \div NC
               pair == <<<<2, 3>>, <<3, 2>>, <<1, 1>>, <<0, 2>>, <<3, 0>>>>[1 + (q % 5)]
           IN <<c, pair[1], pair[2], IF q >= 5 THEN 2 ELSE 0, 7>>
NS == NC * 10
PairProg(fx, a, b) == LET s0 == Start(fx)
                          x == Step(a)
                          s1 == IF Enabled(s0, x) THEN Apply(fx, s0, x) ELSE s0
                          y == Step(b)
                          p == (IF Enabled(s0, x) THEN <<InsTxt(x)>> ELSE <<>>) \o (IF Enabled(s1, y) THEN <<InsTxt(y)>> ELSE <<>>)
                      IN IF p = <<>> THEN <<InsTxt(<<"cmp", 1, 1, 0, 0>>)>> ELSE p
NP == IF Thorough THEN NS * NS ELSE 8000                \* a sample of the pairs
NR == IF Thorough THEN 30000 ELSE 6000
Case(i) ==
  LET h == Hash(Seed, i)
      op == PickSeq(Hash(h, 1), Ops)
      fx == FixOf(op)
      q == IF Thorough THEN i - 1 ELSE ((i - 1) * 6 + (Seed % 6)) % (NS * NS)
      p == IF i <= NP THEN PairProg(fx, q \div NS, q % NS) ELSE Prog(fx, Hash(h, 2), 6 + (Hash(h, 3) %% 30), Start(fx), <<>>)
  IN CaseLine("A", i, op) \o SArg(Join(p, 1))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..(NP + NR) |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
