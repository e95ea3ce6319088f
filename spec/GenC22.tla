------------------------------- MODULE GenC22 -------------------------------
(***************************************************************************)
(* Every factorial and double factorial up to 1100, every binomial         *)
(* coefficient of the rows up to 180, and beyond at random; Pochhammer     *)
(* symbols and binomials of real arguments of every kind: integers, next   *)
(* to integers, half integers, of moderate size, tiny.                     *)
(***************************************************************************)
EXTENDS GenElem
N == IF Thorough THEN 60000 ELSE 7000
NRow == 181
\* a real number: integers, next to integers, fractions, ordinary
Sg1(h) == IF Sgn1(h) = 1 THEN "" ELSE "-"
Real(h, m) == LET c == Hash(h, 101) %% 8 IN
  CASE c \preceq 1 -> Sg1(h) \o Str(Hash(h, 102) %% m)
    [] c \preceq 3 -> (LET t == NearTo((Hash(h, 102) %% m) ** P10(125), 125, Hash(h, 103)) IN IF SubSeq(t, 1, 1) = "-" THEN t ELSE Sg1(h) \o t)
    [] c = 4 -> Sg1(h) \o Str(Hash(h, 102) %% m) \o ".5"
    [] c = 5 -> RealIn(Hash(h, 104), -20, 0)
    [] OTHER -> Txt(Hash(h, 105) %% 2, Hash(h, 106) %% (m ** P10(12)), -12)
Cnt(h) == CASE (h %% 6) = 0 -> (h // 6) %% 4 [] (h %% 6) = 1 -> 47 ++ ((h // 6) %% 6) [] (h %% 6) \preceq 3 -> (h // 6) %% 50 [] OTHER -> (h // 6) %% 300
BigN(h) == LET k == 3 ++ (Hash(h, 110) %% 6) IN P10(k) ++ (Hash(h, 111) %% (9 ** P10(k)))
Case(i) ==
  LET h == Hash(Seed, i)
      CL(op) == CaseLine("S", i, op)
      c == i % 10
      h1 == Hash(h, 1)
      h2 == Hash(h, 2)
  IN IF i <= 1100 THEN CL("fact") \o IArg(i - 1)
     ELSE IF i <= 2700 THEN CL("fact2") \o IArg(i - 1501)
     ELSE IF i <= 2700 + NRow THEN CL("binrow") \o IArg(i - 2701)
     ELSE CASE c = 0 -> CL("fact") \o IArg(BigN(h1))
            [] c = 1 -> CL("fact2") \o IArg(Sgn1(h2) ** (BigN(h1) %% 20000000))
            [] c = 2 -> LET n == IF (h2 %% 2) \doteq 0 THEN h1 %% 1200 ELSE 150 ++ (h1 %% 20) IN CL("binnk") \o IArg(n) \o IArg(Hash(h, 3) %% (n ++ 3))
            [] c = 3 -> CL("binnk") \o IArg(BigN(h1) %% 100000) \o IArg(Hash(h, 3) %% 1000)
            [] c = 4 -> CL("binxk") \o EArg(Real(h1, IF (h2 %% 2) \doteq 0 THEN 60 ELSE 500)) \o IArg(Cnt(Hash(h, 3)))
            [] c \in {5, 6} -> CL("poch") \o EArg(Real(h1, IF (h2 %% 2) \doteq 0 THEN 60 ELSE 500)) \o IArg(Cnt(Hash(h, 3)))
            [] c = 7 -> CL("pochr") \o EArg(Real(h1, 100)) \o EArg(Real(h2, 100))
            [] c = 8 -> (IF (Hash(h, 3) %% 2) \doteq 0 THEN CL("binny") \o IArg(h1 %% 300) \o EArg(Real(h2, 100)) ELSE CL("binxy") \o EArg(Real(h1, 100)) \o EArg(Real(h2, 100)))
            [] OTHER -> CL("cpoch") \o EArg(Real(h1, 60)) \o EArg(Real(h2, 60)) \o IArg(Hash(h, 3) %% 50)
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
