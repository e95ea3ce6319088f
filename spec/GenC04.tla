------------------------------- MODULE GenC04 -------------------------------
EXTENDS GenBase
(* Exhaustive: every operation x every pair of operand classes and signs.  *)
V == <<"nan", "inf", "-inf", "0", "-0", "1", "-1", "max", "-max", "min", "-min", "0.1", "-3", "100000000", "-1e-8", "123456789.5", "-99999999", "1e50", "2e-200000000", "-7e200000000",
       "9.99999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999e7", "1.00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001">>
Bin == <<"t_add", "t_sub", "t_mul", "t_div", "t_addeq", "t_subeq", "t_muleq", "t_diveq">>
Un == <<"t_val", "t_neg", "t_pos", "t_abs", "t_fabs", "t_inv", "t_sqrt", "t_cinv", "t_csqrt", "t_negate", "t_inc", "t_dec", "t_selfadd", "t_selfsub", "t_selfmul", "t_selfdiv", "t_selfassign", "t_reuse", "t_copy">>
NV == Len(V)
NB == Len(Bin) * NV * NV
NU == Len(Un) * NV
CaseB(i) == CaseLine("B", i, Bin[1 + (i % 8)]) \o EArg(V[1 + ((i \div 8) % NV)]) \o EArg(V[1 + ((i \div (8 * NV)) % NV)])
CaseU(i) == CaseLine("U", i, Un[1 + (i % Len(Un))]) \o EArg(V[1 + ((i \div Len(Un)) % NV)])
\* the classes against ordinary operands of every shape
NR == IF Thorough THEN 40000 ELSE 6000
CaseR(i) == LET h == Hash(Seed, i) IN
   CaseLine("R", i, Bin[1 + (i % 8)]) \o (IF (Hash(h, 1) %% 2) \doteq 0 THEN EArg(PickSeq(Hash(h, 2), V)) \o EArg(Operand(Hash(h, 3), 16))
                                          ELSE EArg(Operand(Hash(h, 3), 16)) \o EArg(PickSeq(Hash(h, 2), V)))
NS == IF Thorough THEN 20000 ELSE 3000
CaseS(i) == LET h == Hash(Seed, 900000 + i) IN CaseLine("S", i, PickSeq(Hash(h, 1), Un)) \o EArg(Operand(Hash(h, 3), 16))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..(NB + NU + NR + NS) |->
   IF i <= NB THEN CaseB(i) ELSE IF i <= NB + NU THEN CaseU(i - NB) ELSE IF i <= NB + NU + NR THEN CaseR(i) ELSE CaseS(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
