------------------------------- MODULE GenC14 -------------------------------
EXTENDS GenProg
(* Precision changes between all other instructions; long operands, so that  *)
(* what lies beyond a reduced precision is not zero.                         *)
N == IF Thorough THEN 12000 ELSE 2500
Codes == <<"lit", "lit", "lit", "cpy", "cpc", "mov", "swp", "sws", "ade", "sue", "mue", "mue", "die", "die", "add", "sub", "mul", "mul", "div", "div",
           "inc", "neg", "sqt", "inv", "sqf", "nad", "nmu", "nmu", "ndi", "ndi", "get", "prc", "prc", "prc", "prc", "prc", "prc", "prc", "prc", "prc">>
Ints == <<"3", "-7", "99999999", "100000001", "-12345678901234567", "9223372036854775807", "4294967296">>
Precs == <<0, 1, 8, 9, 15, 16, 17, 20, 24, 25, 30, 40, 48, 50, 64, 65, 80, 90, 99, 100, 101, 104, 111, 112, 120, 128, 1000, 1000, 1000, 100000>>
Long(h) == Sized(h, 8 + (Hash(h, 1) %% 8), -30, 30)
Text(h, c) == IF c \in {"nad", "nsu", "nmu", "ndi"} THEN PickSeq(Hash(h, 1), Ints)
              ELSE IF c = "prc" THEN ToString(IF (Hash(h, 2) %% 3) \doteq 0 THEN 1 + (Hash(h, 3) %% 130) ELSE PickSeq(Hash(h, 4), Precs))
              ELSE IF (Hash(h, 5) %% 4) \doteq 0 THEN Operand(Hash(h, 6), 15) ELSE Long(Hash(h, 7))
Case(n) == LET h == Hash(Seed, n)
           IN CaseLine("Q", n, "prog") \o SArg(Join(Prog(h, 8 + (Hash(h, 99) %% 14), AllKnown, Codes, Text, <<>>), 1))
ASSUME EmitLines(IOEnv.VERIF_CASES, [n \in 1..N |-> Case(n)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
