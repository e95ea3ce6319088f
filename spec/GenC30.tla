------------------------------- MODULE GenC30 -------------------------------
(***************************************************************************)
(* Histories.  First every call alone in a new process; then histories of   *)
(* several calls: every call behind every other one in pairs of functions   *)
(* (a sample of the arguments), longer ones at random, with repetitions.    *)
(***************************************************************************)
EXTENDS GenBase
NF == 138
NA == 12
Singles == NF * NA
NPairs == (NF * NF) \div 20 + 1
NLong == IF Thorough THEN 20000 ELSE 700
C1(f, a) == IArg(f) \o IArg(a)
\* history j covers 20 pairs (f, g): f g f' g' ...
RECURSIVE PairSeq(_, _, _)
PairSeq(h, j, n) == IF n = 20 THEN "" ELSE LET q == (j * 20 + n) IN C1(q % NF, Hash(h, n) %% NA) \o C1((q \div NF) % NF, Hash(h, n + 100) %% NA) \o PairSeq(h, j, n + 1)
RECURSIVE Long(_, _, _)
Long(h, n, last) == IF n = 0 THEN ""
                    ELSE LET again == (Hash(h, 3 * n) %% 6) \doteq 0
                             t == IF again THEN last ELSE C1(Hash(h, 3 * n + 1) %% NF, Hash(h, 3 * n + 2) %% NA)
                         IN t \o Long(h, n - 1, t)
Case(i) ==
  LET h == Hash(Seed, i)
      q == i - 1
  IN IF i <= Singles THEN CaseLine("H", i, "hist") \o C1(q \div NA, q % NA)
     ELSE IF i <= Singles + NPairs THEN CaseLine("H", i, "hist") \o PairSeq(h, i - Singles - 1, 0)
     ELSE CaseLine("H", i, "hist") \o Long(h, 5 + (h %% 60), C1(0, 0))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..(Singles + NPairs + NLong) |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
