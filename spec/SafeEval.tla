------------------------------ MODULE SafeEval ------------------------------
(* Evaluation that survives a malformed observation (java/tlc2/overrides/SafeOverrides.java). *)
Safe(e) == e
=============================================================================
