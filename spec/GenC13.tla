------------------------------- MODULE GenC13 -------------------------------
EXTENDS GenProg
N == IF Thorough THEN 12000 ELSE 2500
Codes == <<"lit", "lit", "lit", "cpy", "cpc", "mov", "mov", "mvc", "swp", "sws", "ade", "ade", "sue", "sue", "mue", "mue", "die", "die", "add", "sub", "mul", "div",
           "inc", "dec", "pin", "pde", "neg", "ngt", "abs", "sqt", "inv", "sqf", "nad", "nsu", "nmu", "ndi", "get", "cmp", "rel", "ini">>
Small == <<"0", "1", "-1", "2", "3", "-7", "10", "0.5", "0.1", "-0.125", "99999999", "1e8", "100000001", "1e-8", "1e100", "1e-100", "-12345678901234567890", "0.33333333333333333333333333333333">>
Rare == <<"nan", "inf", "-inf", "0">>
Ints == <<"0", "1", "-1", "2", "7", "-10", "99999999", "100000000", "-100000001", "9223372036854775807", "4294967296", "1000000000000000000">>
Text(h, c) == IF c \in {"nad", "nsu", "nmu", "ndi"} THEN PickSeq(Hash(h, 1), Ints)
              ELSE IF c = "lit" /\ (Hash(h, 2) %% 15) \doteq 0 THEN PickSeq(Hash(h, 3), Rare)
              ELSE IF (Hash(h, 4) %% 2) \doteq 0 THEN PickSeq(Hash(h, 5), Small) ELSE Operand(Hash(h, 6), 15)
Case(n) == LET h == Hash(Seed, n)
           IN CaseLine("P", n, "prog") \o SArg(Join(Prog(h, 6 + (Hash(h, 99) %% 14), AllKnown, Codes, Text, <<>>), 1))
ASSUME EmitLines(IOEnv.VERIF_CASES, [n \in 1..N |-> Case(n)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
