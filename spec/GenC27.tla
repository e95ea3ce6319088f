------------------------------- MODULE GenC27 -------------------------------
(***************************************************************************)
(* Every named constant, and the numeric limits, once per configuration.   *)
(* In a configuration beyond a thousand digits only the constants that are *)
(* computed (the tables hold 1100 digits).                                 *)
(***************************************************************************)
EXTENDS GenBase, Config
Names == <<"zero", "one", "half", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "fifty", "hundred", "thousand", "million", "billion",
           "trillion", "googol", "int32_min", "int32_max", "int64_min", "int64_max", "unsigned_long_long_max", "signed_long_long_min", "signed_long_long_max",
           "double_min", "double_max", "long_double_min", "long_double_max", "one_minus", "tenth", "eighth", "fifth", "quarter", "third", "two_third", "three_half",
           "pi", "gpi", "pi_half", "pi_squared", "two_pi", "sqrt_pi">>
Tables == <<"sqrt2", "e", "ln2", "gln2", "ln10", "phi", "euler_gamma", "ggamma", "catalan", "khinchin", "glaisher">>
All == IF CfgDigits > 1095 THEN Names ELSE Names \o Tables
Ops == <<"bool", "digits", "exps", "vals", "edge", "order">>
Q == Len(All)
\* in an order that depends on the seed
Case(i) == IF i <= Q THEN CaseLine("K", i, "const") \o SArg(All[1 + ((i + Seed * 7) % Q)]) ELSE CaseLine("K", i, Ops[i - Q])
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..(Q + 6) |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
