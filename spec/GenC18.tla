------------------------------- MODULE GenC18 -------------------------------
EXTENDS GenElem
N == IF Thorough THEN 150000 ELSE 10000
\* (a circular function of an argument of 10^300 million would need that many digits of pi)
Angle(h) == LET c == Hash(h, 1) %% 12 IN
  CASE c = 0 -> PickSeq(Hash(h, 2), <<"nan", "inf", "-inf", "0", "-0", "min", "-min", "1", "-1">>) [] c = 1 -> Small(Hash(h, 2)) [] c \preceq 3 -> RealIn(Hash(h, 2), -3, 1) [] c = 4 -> RealIn(Hash(h, 2), -150, 0) [] c \preceq 8 -> NearPi(Hash(h, 2))
    [] c = 9 -> RealIn(Hash(h, 2), 0, 60) [] c = 10 -> RealIn(Hash(h, 2), -200000, -100) [] OTHER -> RealIn(Hash(h, 2), -14, 3)
Ratio(h) == LET c == Hash(h, 1) %% 12 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c \preceq 3 -> NearOne(Hash(h, 2)) [] c = 4 -> NearMinusOne(Hash(h, 2)) [] c \preceq 7 -> RealIn(Hash(h, 2), -2, 0) [] c = 8 -> RealIn(Hash(h, 2), -14, -8) [] c = 9 -> RealIn(Hash(h, 2), -130, 0) [] OTHER -> RealIn(Hash(h, 2), -3, 0)
Slope(h) == LET c == Hash(h, 1) %% 8 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c = 2 -> NearOne(Hash(h, 2)) [] c = 3 -> RealIn(Hash(h, 2), -130, 130) [] c = 4 -> RealIn(Hash(h, 2), 8, 16) [] c = 5 -> RealIn(Hash(h, 2), -16, -8) [] OTHER -> RealIn(Hash(h, 2), -3, 4)
Fns == <<"sin", "cos", "tan", "sin", "cos", "sec", "csc", "cot", "sincos">>
Case(i) ==
  LET h == Hash(Seed, i)
      c == i % 16
      h1 == Hash(h, 1)
      h2 == Hash(h, 2)
  IN CASE c <= 8 -> CaseLine("S", i, Fns[c + 1]) \o EArg(Angle(h1))
       [] c \in {9, 10} -> CaseLine("A", i, "asin") \o EArg(Ratio(h1))
       [] c = 11 -> CaseLine("B", i, "acos") \o EArg(Ratio(h1))
       [] c \in {12, 13} -> CaseLine("T", i, "atan") \o EArg(Slope(h1))
       [] OTHER -> CaseLine("U", i, "atan2") \o EArg(Slope(h1)) \o EArg(Slope(h2))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
