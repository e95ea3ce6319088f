------------------------------- MODULE GenC02 -------------------------------
EXTENDS GenBase
(* Pairs of factors.  A: every length pair x style pair.  B: every form.   *)
(* C: products that fit.  D: one factor a power of ten times a digit.      *)
NA == 16 * 16 * 64
CaseA(i) ==
  LET h == Hash(Seed, i)
      n1 == 1 + (i % 16)
      n2 == 1 + ((i \div 16) % 16)
      s1 == (i \div 256) % 8
      s2 == (i \div 2048) % 8
  IN CaseLine("A", i, "mul") \o EArg(Txt(Hash(h, 6) %% 2, Mant(s1, n1, Hash(h, 2)), PickSeq(Hash(h, 4), Exps)))
                             \o EArg(Txt(Hash(h, 7) %% 2, Mant(s2, n2, Hash(h, 3)), PickSeq(Hash(h, 5), Exps)))
OpsB == <<"mul", "muleq", "mulcomm", "selfmul", "sqr", "mulcomm", "sqr">>
NB == IF Thorough THEN 120000 ELSE 10000
CaseB(i) == LET h == Hash(Seed, 1000000 + i)
  IN CaseLine("B", i, OpsB[1 + (i % Len(OpsB))]) \o EArg(Operand(Hash(h, 1), 16)) \o EArg(Operand(Hash(h, 2), 16))
NC == IF Thorough THEN 30000 ELSE 3000
CaseC(i) ==
  LET h == Hash(Seed, 2000000 + i)
      n1 == 1 + (Hash(h, 1) %% 11)
      n2 == 12 - n1
      e == IF (Hash(h, 9) %% 2) \doteq 0 THEN 0 ELSE PickSeq(Hash(h, 4), Exps)
  IN CaseLine("C", i, "mulcomm") \o EArg(Txt(Hash(h, 6) %% 2, Mant(Hash(h, 7) %% 8, n1, Hash(h, 2)), e))
                             \o EArg(Txt(Hash(h, 8) %% 2, Mant(Hash(h, 10) %% 8, n2, Hash(h, 3)), 0))
ND == 1000
CaseD(i) == LET h == Hash(Seed, 3000000 + i)
  IN CaseLine("D", i, PickSeq(Hash(h, 3), <<"mul", "mulcomm", "muleq">>)) \o EArg(Operand(Hash(h, 1), 16))
        \o EArg(Txt(Hash(h, 4) %% 2, 1 + (i % 9), (i \div 9) - 55))
Step == IF Thorough THEN 1 ELSE 2
MA == NA \div Step
ASSUME EmitLines(IOEnv.VERIF_CASES,
   [i \in 1..(MA + NB + NC + ND) |-> IF i <= MA THEN CaseA(Step * i - (Hash(Seed, i) %% Step))
                                ELSE IF i <= MA + NB THEN CaseB(i) ELSE IF i <= MA + NB + NC THEN CaseC(i) ELSE CaseD(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
