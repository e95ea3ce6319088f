------------------------------- MODULE GenC01 -------------------------------
EXTENDS GenBase
(* Pairs of operands for addition and subtraction.                         *)
\* family A: every pair of styles x alignment offset x length pair x sign pair
Offs == <<0, 1, -1, 3, 7, 8, -8, 9, 15, 16, 40, 56, -64, 88, 95, 96, 97, 100, 101, 103, 104, 105, 111, 112, 113, 119, 120, 121, 127, 128, 129, -100, -112, -120, -121, -128, 136, 250>>
Lens == <<1, 2, 7, 13, 15, 16>>
NA == 8 * 8 * Len(Offs) * Len(Lens)
OpsA == <<"add", "sub">>
CaseA(i) ==
  LET s1 == i % 8
      s2 == (i \div 8) % 8
      o  == Offs[1 + ((i \div 64) % Len(Offs))]
      n1 == Lens[1 + ((i \div (64 * Len(Offs))) % Len(Lens))]
      h  == Hash(Seed, i)
      n2 == PickSeq(Hash(h, 1), Lens)
      x  == Mant(s1, n1, Hash(h, 2))
      y  == Mant(s2, n2, Hash(h, 3))
      e0 == PickSeq(Hash(h, 4), <<0, 0, -8, 5, -120, 77>>)
      ey == (e0 ++ (8 * (n1 - n2))) ++ o
  IN "A" \o ToString(i) \o Tab \o PickSeq(Hash(h, 5), OpsA) \o EArg(Txt(Hash(h, 6) %% 2, x, e0)) \o EArg(Txt(Hash(h, 7) %% 2, y, ey))
\* family B: cancellation, y differs from x by a small amount in some digit
NB == IF Thorough THEN 40000 ELSE 6000
CaseB(i) ==
  LET h == Hash(Seed, 700000 + i)
      n == 1 + (Hash(h, 1) %% 15)
      x == Mant(Hash(h, 2) %% 8, n, Hash(h, 3))
      p == P10(Hash(h, 4) %% (8 * n))
      dl == PickSeq(Hash(h, 5), <<0, 1, -1, 9, 99999999, -100000000, 5>>)
      y == x ++ (dl ** p)
      e == PickSeq(Hash(h, 6), <<0, -8, -3, 5, -100, 1000>>)
      sg == Hash(h, 7) %% 2
  IN "B" \o ToString(i) \o Tab \o (IF sg = 0 THEN "sub" ELSE "add") \o EArg(Txt(0, x, e)) \o EArg(Txt(sg, y, e))
\* family C: generic operands, all forms of the operation
OpsC == <<"add", "sub", "addeq", "subeq", "addcomm", "inc", "dec", "postinc", "postdec", "selfadd", "selfsub">>
NC == IF Thorough THEN 120000 ELSE 12000
CaseC(i) ==
  LET h == Hash(Seed, 1400000 + i)
  IN "C" \o ToString(i) \o Tab \o OpsC[1 + (i % Len(OpsC))] \o EArg(Operand(Hash(h, 1), 16)) \o EArg(Operand(Hash(h, 2), 16))
Step == IF Thorough THEN 1 ELSE 2
ASSUME EmitLines(IOEnv.VERIF_CASES,
   [i \in 1..(NA \div Step + NB + NC) |-> IF i <= NA \div Step THEN CaseA(Step * i - (Hash(Seed, i) %% Step))
                                ELSE IF i <= NA \div Step + NB THEN CaseB(i) ELSE CaseC(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
