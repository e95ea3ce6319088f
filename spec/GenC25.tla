------------------------------- MODULE GenC25 -------------------------------
(***************************************************************************)
(* Real arguments: integers and half integers, next to integers at every   *)
(* distance, tiny, of ordinary size, around the argument at which the       *)
(* asymptotic series takes over (240 at 100 digits), large ones; complex    *)
(* arguments of moderate size, on and next to the axes.                     *)
(***************************************************************************)
EXTENDS GenElem
N == IF Thorough THEN 40000 ELSE 6000
Sg1(h) == IF Sgn1(h) = 1 THEN "" ELSE "-"
NearInt(h, m) == LET t == NearTo((Hash(h, 102) %% m) ** P10(125), 125, Hash(h, 103)) IN IF SubSeq(t, 1, 1) = "-" THEN t ELSE Sg1(h) \o t
Real(h, m) == LET c == Hash(h, 101) %% 8 IN
  CASE c = 0 -> Sg1(h) \o Str(Hash(h, 102) %% m)
    [] c \preceq 2 -> NearInt(h, m)
    [] c = 3 -> Sg1(h) \o Str(Hash(h, 102) %% m) \o ".5"
    [] c = 4 -> RealIn(Hash(h, 104), -130, 0)
    [] OTHER -> Txt(Hash(h, 105) %% 2, Hash(h, 106) %% (m ** P10(12)), -12)
Size(h) == PickSeq(h, <<3, 3, 10, 50, 260, 260, 1100, 100000>>)
ZReal(h) == LET c == Hash(h, 121) %% 10 IN
  CASE c = 0 -> NearOne(Hash(h, 122)) [] c \preceq 4 -> Real(Hash(h, 123), PickSeq(Hash(h, 124), <<3, 3, 10, 50, 400>>))
    [] c = 5 -> Txt(0, 3 ** (10 ++ (Hash(h, 125) %% 2000)), -1)          \* around the switch to the product of primes
    [] c = 6 -> PosIn(Hash(h, 126), 2, 40)
    [] c = 7 -> Txt(1, Hash(h, 127) %% P10(12), -12)
    [] OTHER -> Txt(Hash(h, 128) %% 2, Hash(h, 129) %% P10(14), -13)
Part(h) == LET c == Hash(h, 131) %% 8 IN
  CASE c = 0 -> Sg1(h) \o Str(Hash(h, 132) %% 20) [] c = 1 -> NearInt(Hash(h, 133), 10) [] c = 2 -> RealIn(Hash(h, 134), -120, 0) [] OTHER -> Txt(Hash(h, 135) %% 2, Hash(h, 136) %% (25 ** P10(12)), -12)
CPart(h) == IF (Hash(h, 137) %% 12) \doteq 0 THEN "0" ELSE Part(Hash(h, 138))
Case(i) ==
  LET h == Hash(Seed, i)
      CL(op) == CaseLine("G", i, op)
      c == i % 12
      h1 == Hash(h, 1)
      h2 == Hash(h, 2)
  IN CASE c <= 3 -> CL("gam") \o EArg(IF i < 60 THEN Special(h1) ELSE Real(h1, Size(h2)))
       [] c = 4 -> CL("gamnear") \o IArg(Sgn1(h2) ** (Hash(h, 3) %% 300)) \o EArg(RealIn(h1, -120, -1))
       [] c = 5 -> CL("gampm") \o EArg(Real(h1, Size(h2)))
       [] c <= 8 -> CL("zeta") \o EArg(ZReal(h1))
       [] c \in {9, 10} -> CL("cgam") \o EArg(CPart(h1)) \o EArg(CPart(h2))
       [] OTHER -> CL("czeta") \o EArg(CPart(h1)) \o EArg(CPart(h2))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
