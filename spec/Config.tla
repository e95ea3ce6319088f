------------------------------- MODULE Config -------------------------------
(* The configuration the recorder was built with: "std" (101 digits), "pi"   *)
(* (1000001 digits), or dN (N digits).                                       *)
EXTENDS BigInt, Sequences, IOUtils
CfgName == IOEnv.VERIF_CONFIG
CfgDigits == IF CfgName \in {"std", "asan"} THEN 101 ELSE IF CfgName = "pi" THEN 1000001 ELSE Dec(SubSeq(CfgName, 2, Len(CfgName)))
=============================================================================
