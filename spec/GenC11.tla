------------------------------- MODULE GenC11 -------------------------------
EXTENDS GenBase
(* Values written in every format with between 1 and max_digits10 digits,  *)
(* read back and written again.                                            *)
N == IF Thorough THEN 60000 ELSE 9000
Case(i) ==
  LET h == Hash(Seed, i)
      fl == PickSeq(Hash(h, 1), <<"s", "s", "", "f", "su", "sp+", "p", "fp+">>)
      fixed == fl \in {"f", "fp+"}
      c == Hash(h, 2) %% 4
      p == CASE c \preceq 1 -> -1                                   \* all digits
             [] c = 2 -> 99 + (Hash(h, 3) %% 4)
             [] OTHER -> 1 + (Hash(h, 3) %% 130)
      n == 1 + (Hash(h, 4) %% 18)
      v == IF fixed THEN Sized(Hash(h, 5), n, -20, 20)
           ELSE IF (Hash(h, 6) %% 4) \doteq 0 THEN Sized(Hash(h, 5), n, -300000000, 300000000)
           ELSE IF (Hash(h, 6) %% 4) = 1 THEN Sized(Hash(h, 5), n, -30, 30) ELSE Operand(Hash(h, 5), 18)
  IN CaseLine("R", i, "round") \o EArg(IF (Hash(h, 7) %% 40) \doteq 0 THEN PickSeq(Hash(h, 8), <<"0", "1", "-1", IF fixed THEN "2" ELSE "max", IF fixed THEN "-3" ELSE "-max", IF fixed THEN "0.5" ELSE "min", IF fixed THEN "-7e-3" ELSE "-min", "0.1", "-10", "99999999", "100000000", "1e100", "1e-100">>) ELSE v) \o SArg(fl) \o IArg(p)
\* the largest and smallest values are not written in the fixed format
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
