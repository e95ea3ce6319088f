------------------------------- MODULE GenC24 -------------------------------
(***************************************************************************)
(* Every Bernoulli number up to 2100 and some beyond (the table ends       *)
(* before), tables of every length up to 40 and of some longer ones, zeta  *)
(* at every integer from -1200 to 500 and some beyond.                     *)
(***************************************************************************)
EXTENDS GenBase
N == IF Thorough THEN 6000 ELSE 3000
Case(i) ==
  LET h == Hash(Seed, i)
      CL(op) == CaseLine("B", i, op)
      any(k) == h %% k
  IN IF i <= 1060 THEN CL("bern") \o IArg(2 * (i - 1))
     ELSE IF i <= 1100 THEN CL("bern") \o IArg(2 * (i - 1060) - 1)
     ELSE IF i <= 1200 THEN CL("bern") \o IArg(2 ** any(IF Thorough THEN 10000 ELSE 3000))
     ELSE IF i <= 1220 THEN CL("bern") \o IArg(any(1000000))
     ELSE IF i <= 1260 THEN CL("bernt") \o IArg(i - 1221) \o IArg(any(30))
     ELSE IF i <= (IF Thorough THEN 1300 ELSE 1265) THEN CL("bernt") \o IArg(any(300)) \o IArg(any(30))
     ELSE IF i <= 2965 THEN CL("zint") \o IArg(i - 2465)
     ELSE IF i <= 2985 THEN CL("zint") \o IArg(2 ^^ (1 + (i - 2965)))
     ELSE CL("zint") \o IArg(0 -- any(3000))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
