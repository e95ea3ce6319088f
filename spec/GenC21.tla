------------------------------- MODULE GenC21 -------------------------------
EXTENDS GenElem
N == IF Thorough THEN 200000 ELSE 16000
RegularPart(h) == LET c == Hash(h, 1) %% 12 IN
  CASE c = 0 -> PickSeq(Hash(h, 2), <<"1", "-1", "0.5", "-0.5", "2", "-2", "0.1", "10">>)
    [] c \preceq 5 -> RealIn(Hash(h, 2), -2, 1)
    [] c = 6 -> RealIn(Hash(h, 2), -20, 2) [] c = 7 -> RealIn(Hash(h, 2), -120, 0)
    [] c = 8 -> (IF Sgn1(Hash(h, 3)) = 1 THEN NearOne(Hash(h, 2)) ELSE NearMinusOne(Hash(h, 2)))
    [] OTHER -> RealIn(Hash(h, 2), 0, 2)
\* parts small enough that exponentials stay moderate; on an axis now and then; next to 1, -1, i, -i
Tail1(h) == IF (Hash(h, 3) %% 3) \doteq 0 THEN "0" ELSE RealIn(Hash(h, 2), -130, -1)
Arg2(h) == LET c == Hash(h, 21) %% 16
               p == RegularPart(Hash(h, 22))
               q == RegularPart(Hash(h, 23))
               one == IF Sgn1(Hash(h, 24)) = 1 THEN NearOne(Hash(h, 25)) ELSE NearMinusOne(Hash(h, 25))
           IN CASE c = 0 -> EArg(p) \o EArg("0") [] c = 1 -> EArg("0") \o EArg(p) [] c = 2 -> EArg(one) \o EArg(Tail1(Hash(h, 26))) [] c = 3 -> EArg(Tail1(Hash(h, 26))) \o EArg(one)
                [] c = 4 -> EArg(PickSeq(Hash(h, 27), <<"0", "1", "-1", "0", "2", "-2", "-0", "0.5">>)) \o EArg(PickSeq(Hash(h, 28), <<"0", "1", "-1", "0", "2", "-2", "-0", "0.5">>))
                [] OTHER -> EArg(p) \o EArg(q)
\* every magnitude, for the functions that do not grow exponentially
Wide(h) == IF (Hash(h, 31) %% 2) \doteq 0 THEN Arg2(h)
           ELSE LET e == Hash(h, 32) %% 160 IN EArg(RealIn(Hash(h, 33), e -- 70, e -- 60)) \o EArg(RealIn(Hash(h, 34), e -- 70, e -- 60))
\* next to the poles of the circular functions (t: of the hyperbolic ones)
PolePi(h) == NearTo((Sgn1(Hash(h, 44)) ** (1 ++ (Hash(h, 45) %% (IF (Hash(h, 47) %% 2) \doteq 0 THEN 9 ELSE 1000000))) ** PiX) // (2 ** P10(Xp - 125)), 125, Hash(h, 46))
Polar2(h, t) == LET p == PolePi(Hash(h, 42))
                    q == Tail1(Hash(h, 43))
                IN IF (Hash(h, 41) %% 3) \doteq 0 THEN Arg2(h) ELSE IF t THEN EArg(q) \o EArg(p) ELSE EArg(p) \o EArg(q)
Grow == <<"cexp", "csin", "ccos", "csinh", "ccosh", "cexp">>
Flat == <<"csqrt", "clog", "clog10", "casin", "cacos", "catan", "casinh", "cacosh", "catanh", "csqrt", "carg", "casin", "catan", "cacosh">>
Case(i) ==
  LET h == Hash(Seed, i)
      c == i % 20
      h1 == Hash(h, 1)
      CL(op) == CaseLine("E", i, op)
  IN CASE c <= 5 -> CL(Grow[c + 1]) \o Arg2(h1)
       [] c = 6 -> CL("ctan") \o Polar2(h1, FALSE)
       [] c = 7 -> CL("ctanh") \o Polar2(h1, TRUE)
       [] c <= 15 -> CL(PickSeq(Hash(h, 4), Flat)) \o Wide(h1)
       [] c = 16 -> CL("cpolar") \o EArg(RealIn(h1, -30, 30)) \o EArg(NearPi(Hash(h, 2)))
       [] c = 17 -> CL("cpow") \o Arg2(h1) \o Arg2(Hash(h, 2))
       [] c = 18 -> CL("cpowr") \o Arg2(h1) \o EArg(RegularPart(Hash(h, 2)))
       [] OTHER -> CL("crpow") \o EArg(RegularPart(h1)) \o Arg2(Hash(h, 2))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
