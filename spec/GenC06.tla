------------------------------- MODULE GenC06 -------------------------------
EXTENDS GenTypes
(* A: y differs from x in one digit or not at all.  B: ordinary pairs.      *)
(* W: the same value reached in different ways.  S: all pairs of special    *)
(* values.  T: comparison with built-in numbers of every type.              *)
NA == IF Thorough THEN 40000 ELSE 6000
CaseA(i) ==
  LET h == Hash(Seed, i)
      n == 1 + (i % 16)
      m == Mant(Hash(h, 1) %% 8, n, Hash(h, 2))
      dl == PickSeq(Hash(h, 3), <<0, 1, -1, 1, -1, 5, 99999999, -100000000>>) ** P10(IF (Hash(h, 10) %% 3) \doteq 0 THEN 0 ELSE Hash(h, 4) %% (8 * n))
      e == PickSeq(Hash(h, 5), Exps)
      m2 == m ++ dl
      sg == Hash(h, 6) %% 2
      ye == e ++ PickSeq(Hash(h, 7), <<0, 0, 0, 0, 0, 1, -1, 8, -8>>)
  IN CaseLine("A", i, "cmp") \o EArg(Txt(sg, m, e)) \o EArg(Txt(IF (Hash(h, 8) %% 5) \doteq 0 THEN 1 - sg ELSE sg, m2, ye))
NB == IF Thorough THEN 20000 ELSE 3000
CaseB(i) == LET h == Hash(Seed, 1000000 + i) IN CaseLine("B", i, IF i % 50 = 0 THEN "cmpself" ELSE "cmp") \o EArg(AnyOp(Hash(h, 1), 16)) \o EArg(AnyOp(Hash(h, 2), 16))
NW == IF Thorough THEN 20000 ELSE 3000
CaseW(i) == LET h == Hash(Seed, 2000000 + i) IN CaseLine("W", i, "cmpway") \o EArg(Operand(Hash(h, 1), 16)) \o EArg(Operand(Hash(h, 2), 16)) \o IArg(i % 10)
NS == Len(Specials) * Len(Specials)
CaseS(i) == CaseLine("S", i, "cmp") \o EArg(Specials[1 + (i % Len(Specials))]) \o EArg(Specials[1 + ((i \div Len(Specials)) % Len(Specials))])
NT == IF Thorough THEN 60000 ELSE 9000
CaseT(i) ==
  LET h == Hash(Seed, 3000000 + i)
      t == TypeN(i)
      num == Num(t, Hash(h, 1))
      c == Hash(h, 2) %% 6
      x == IF c \preceq 1 THEN AnyOp(Hash(h, 3), 16)
           ELSE IF IsFltT(t) THEN (IF c = 2 THEN PickSeq(Hash(h, 3), Specials) ELSE Operand(Hash(h, 4), 3))
           ELSE LET v == IntNum(t, Hash(h, 1))
                    k == Hash(h, 5) %% 110
                    d == PickSeq(Hash(h, 6), <<0, 0, 1, -1, 5>>)
                IN Txt(0, (v ** P10(k)) ++ d, 0 -- k)     \* equal to, just below or just above the number
  IN CaseLine("T", i, "cmp_" \o t) \o EArg(x) \o SArg(num)
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..(NA + NB + NW + NS + NT) |->
   IF i <= NA THEN CaseA(i) ELSE IF i <= NA + NB THEN CaseB(i) ELSE IF i <= NA + NB + NW THEN CaseW(i) ELSE IF i <= NA + NB + NW + NS THEN CaseS(i) ELSE CaseT(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
