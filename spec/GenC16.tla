------------------------------- MODULE GenC16 -------------------------------
EXTENDS GenElem
N == IF Thorough THEN 150000 ELSE 10000
AnyReal(h) == LET c == Hash(h, 1) %% 12 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c = 2 -> NearOne(Hash(h, 2)) [] c \preceq 5 -> RealIn(Hash(h, 2), -3, 4) [] c \preceq 8 -> RealIn(Hash(h, 2), -200, 200)
    [] c = 9 -> RealIn(Hash(h, 2), 0 - EMaxAll, EMaxAll) [] c = 10 -> Txt(Hash(h, 3) %% 2, Hash(h, 4) %% 1000, 0) [] OTHER -> RealIn(Hash(h, 2), -30000, 30000)
Orders == <<1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 17, 31, 100, 101, 255, 256, 999, 1000, 12345, 65536, 1000003, 9999991>>
Order(h) == LET c == Hash(h, 1) %% 8
                p == IF c \preceq 4 THEN PickSeq(Hash(h, 2), Orders) ELSE IF c = 5 THEN 1 ++ (Hash(h, 2) %% 2000) ELSE IF c = 6 THEN 1 ++ (Hash(h, 2) %% P10(7)) ELSE Hash(h, 2) %% 10
            IN IF (Hash(h, 3) %% 4) \doteq 0 THEN 0 -- p ELSE p
\* a perfect power: k^p as a literal, p small
Perfect(h, p) == Txt(0, (1 ++ (Hash(h, 1) %% 99999)) ^^ p, 3 ** p ** ((Hash(h, 2) %% 9) -- 4))
\* an integer exponent whose power of x stays near the exponent range
IExp(h) == LET c == Hash(h, 1) %% 10 IN
  CASE c \preceq 3 -> (Hash(h, 2) %% 41) -- 20 [] c \preceq 5 -> (Hash(h, 2) %% 2001) -- 1000 [] c = 6 -> (2 ^^ (Hash(h, 2) %% 31)) ++ ((Hash(h, 3) %% 3) -- 1) [] c = 7 -> 0 -- (2 ^^ (Hash(h, 2) %% 31)) 
    [] c = 8 -> (Hash(h, 2) %% (2 ** P10(8))) -- P10(8) [] OTHER -> (Hash(h, 2) %% (2 ** P10(12))) -- P10(12)
Case(i) ==
  LET h == Hash(Seed, i)
      c == i % 10
      h1 == Hash(h, 1)
      h2 == Hash(h, 2)
      sp == 2 + (i % 7)
  IN CASE c = 0 -> CaseLine("Q", i, "sqrt") \o EArg(AnyReal(h1))
       [] c = 1 -> CaseLine("C", i, "cbrt") \o EArg(AnyReal(h1))
       [] c = 2 -> IF (i \div 10) % 2 = 0 THEN CaseLine("C", i, "cbrt") \o EArg(Perfect(h1, 3)) ELSE CaseLine("Q", i, "sqrt") \o EArg(Perfect(h1, 2))
       [] c \in {3, 4} -> CaseLine("R", i, "rootn") \o EArg(AnyReal(h1)) \o IArg(Order(h2))
       [] c = 5 -> CaseLine("V", i, "rootninv") \o EArg(AnyReal(h1)) \o IArg(Order(h2))
       [] c = 6 -> CaseLine("P", i, IF (i \div 10) % 2 = 0 THEN "rootn" ELSE "rootninv") \o EArg(Perfect(h1, sp)) \o IArg(sp)
       [] c \in {7, 8} -> CaseLine("I", i, "powi") \o EArg(AnyReal(h1)) \o IArg(IExp(h2))
       [] c = 9 -> CaseLine("2", i, "pow2") \o IArg(IF (i \div 10) % 3 = 0 THEN (Hash(h, 3) %% (15 ** P10(9))) -- (75 ** P10(8)) ELSE IF (i \div 10) % 3 = 1 THEN (Hash(h, 3) %% 2001) -- 1000 ELSE Sgn1(h) ** ((2 ^^ (Hash(h, 4) %% 33)) -- (Hash(h, 5) %% 2)))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
