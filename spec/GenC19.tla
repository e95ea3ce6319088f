------------------------------- MODULE GenC19 -------------------------------
EXTENDS GenElem
N == IF Thorough THEN 150000 ELSE 10000
HArg(h) == LET c == Hash(h, 1) %% 12 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c \preceq 4 -> RealIn(Hash(h, 2), -3, 3) [] c = 5 -> RealIn(Hash(h, 2), -150, 0) [] c = 6 -> RealIn(Hash(h, 2), 0, 12) [] c = 7 -> RealIn(Hash(h, 2), 9, 10)
    [] c = 8 -> RealIn(Hash(h, 2), -200000, -100) [] OTHER -> RealIn(Hash(h, 2), -14, 3)
Inv(h) == LET c == Hash(h, 1) %% 12 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c \preceq 3 -> NearOne(Hash(h, 2)) [] c = 4 -> RealIn(Hash(h, 2), 0 - EMaxAll, EMaxAll) [] c = 5 -> RealIn(Hash(h, 2), -150, 150) [] c = 6 -> RealIn(Hash(h, 2), -14, 1) [] OTHER -> RealIn(Hash(h, 2), -3, 3)
Unit(h) == LET c == Hash(h, 1) %% 10 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c = 2 -> NearOne(Hash(h, 2)) [] c = 3 -> NearMinusOne(Hash(h, 2)) [] c = 4 -> RealIn(Hash(h, 2), -150, 0) [] c = 5 -> RealIn(Hash(h, 2), -20, -1) [] OTHER -> RealIn(Hash(h, 2), -3, 0)
Case(i) ==
  LET h == Hash(Seed, i)
      c == i % 10
      h1 == Hash(h, 1)
  IN CASE c \in {0, 1} -> CaseLine("S", i, "sinh") \o EArg(HArg(h1))
       [] c = 2 -> CaseLine("C", i, "cosh") \o EArg(HArg(h1))
       [] c \in {3, 4} -> CaseLine("T", i, "tanh") \o EArg(HArg(h1))
       [] c = 5 -> CaseLine("B", i, "sinhcosh") \o EArg(HArg(h1))
       [] c \in {6} -> CaseLine("AS", i, "asinh") \o EArg(Inv(h1))
       [] c \in {7} -> CaseLine("AC", i, "acosh") \o EArg(Inv(h1))
       [] OTHER -> CaseLine("AT", i, "atanh") \o EArg(Unit(h1))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
