------------------------------- MODULE TextIO -------------------------------
(* Writing generated cases to a file, one string per line (java/tlc2/overrides/TextIOOverrides.java). *)
EmitLines(file, s) == TRUE
=============================================================================
