------------------------------- MODULE GenC17 -------------------------------
EXTENDS GenElem
N == IF Thorough THEN 150000 ELSE 10000
\* exp: argument magnitudes up to the overflow limits
ExpArg(h) == LET c == Hash(h, 1) %% 12 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c = 2 -> RealIn(Hash(h, 2), -130, -1) [] c \preceq 5 -> RealIn(Hash(h, 2), -5, 3) [] c \preceq 7 -> RealIn(Hash(h, 2), 0, 9)
    [] c = 8 -> Txt(Hash(h, 3) %% 2, Hash(h, 4) %% (5 ** P10(9)), 0)                                      \* integers
    [] c = 9 -> NearTo((((Hash(h, 5) %% 2000) -- 1000) ** Ln2X) // P10(Xp - 125), 125, Hash(h, 6))          \* next to multiples of ln 2
    [] c = 10 -> Txt(Hash(h, 3) %% 2, PickSeq(Hash(h, 4), <<Dec("4944763835"), Dec("4944763836"), Dec("744187"), Dec("1488374"), Dec("744196"), Dec("1488399"), Dec("744187000"), Dec("7133786264")>>) ** P10(20) ++ Hash(h, 5), -20)
    [] OTHER -> RealIn(Hash(h, 2), -4, 12)
LogArg(h) == LET c == Hash(h, 1) %% 12 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c \preceq 4 -> NearOne(Hash(h, 2)) [] c \preceq 6 -> PosIn(Hash(h, 2), -3, 4) [] c = 7 -> PosIn(Hash(h, 2), -1100, 1100)
    [] c = 8 -> PosIn(Hash(h, 2), 0 - EMaxAll, EMaxAll) [] c = 9 -> "1e" \o Str((Hash(h, 2) %% 4001) -- 2000) [] c = 10 -> RealIn(Hash(h, 2), -20, 20) [] OTHER -> PosIn(Hash(h, 2), -30000, 30000)
Log1pArg(h) == LET c == Hash(h, 1) %% 10 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c = 2 -> NearMinusOne(Hash(h, 2)) [] c \preceq 6 -> RealIn(Hash(h, 2), -130, 0) [] c = 7 -> PosIn(Hash(h, 2), 0, 20) [] OTHER -> RealIn(Hash(h, 2), -3, 1)
\* pow: exponent sized so that the result is mostly in range
PowBase(h) == LET c == Hash(h, 1) %% 10 IN
  CASE c = 0 -> Special(Hash(h, 2)) [] c = 1 -> Small(Hash(h, 2)) [] c \preceq 3 -> NearOne(Hash(h, 2)) [] c \preceq 6 -> PosIn(Hash(h, 2), -2, 3) [] c = 7 -> PosIn(Hash(h, 2), 0, 0) [] c = 8 -> RealIn(Hash(h, 2), -5, 5) [] OTHER -> PosIn(Hash(h, 2), -3000, 3000)
PowExp(h) == LET c == Hash(h, 1) %% 10 IN
  CASE c = 0 -> Small(Hash(h, 2)) [] c = 1 -> Txt(Hash(h, 3) %% 2, Hash(h, 4) %% 2000, 0) [] c = 2 -> Txt(Hash(h, 3) %% 2, (2 ** (Hash(h, 4) %% 200)) ++ 1, 0) [] c = 3 -> Txt(Hash(h, 3) %% 2, (Hash(h, 4) %% 200), -1)
    [] c \preceq 6 -> RealIn(Hash(h, 2), -3, 2) [] c = 7 -> RealIn(Hash(h, 2), -120, -8) [] c = 8 -> RealIn(Hash(h, 2), 2, 6) [] OTHER -> RealIn(Hash(h, 2), 6, 25)
Case(i) ==
  LET h == Hash(Seed, i)
      c == i % 10
      h1 == Hash(h, 1)
      h2 == Hash(h, 2)
  IN CASE c \in {0, 1} -> CaseLine("E", i, "exp") \o EArg(ExpArg(h1))
       [] c \in {2, 3} -> CaseLine("L", i, "log") \o EArg(LogArg(h1))
       [] c = 4 -> CaseLine("T", i, "log10") \o EArg(LogArg(h1))
       [] c = 5 -> CaseLine("O", i, "log1p") \o EArg(Log1pArg(h1))
       [] c = 6 -> CaseLine("A", i, "loga") \o EArg(LogArg(h1)) \o EArg(LogArg(h2))
       [] OTHER -> CaseLine("P", i, "pow") \o EArg(PowBase(h1)) \o EArg(PowExp(h2))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
